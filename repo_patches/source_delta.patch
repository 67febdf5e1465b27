From 56122184f245b99156343d926d89b05528026abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 01/82] fix: load BCV and uW OBS files that start with a BOM
 (our own BCV export writes one)

---
 BibleOrgSys/Formats/BCVBible.py   | 4 ++--
 BibleOrgSys/Formats/uWOBSBible.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index ce47eb2..a9c361f 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -518,13 +518,13 @@ class BCVBibleBook( BibleBook ):
                 filename = self.BBB+'_C'+C+'V'+V+'.txt'
             else:
                 assert CV == ('-1',)
-                C = V = '-1', '0'
+                C, V = '-1', '0'
                 filename = self.BBB+'__Intro.txt'
             with open( os.path.join( self.sourceFolder, filename ), 'rt', encoding='utf-8' ) as myFile: # Automatically closes the file when done
                 for line in myFile:
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loadBCVBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( filename ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index 0392b79..6bd57cd 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -419,7 +419,7 @@ class uWOBSBibleBook( BibleBook ):
                     line = line.rstrip( '\n\r' )
                     lineCount += 1
                     if lineCount==1 and line and line[0]==BibleOrgSysGlobals.BOM:
-                        logging.info( "loaduWOBSBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( metadataFilepath ) )
+                        logging.info( "loaduWOBSBibleBook: Detected Unicode Byte Order Marker (BOM) in {}".format( mdFilepath ) )
                         line = line[1:] # Remove the Byte Order Marker (BOM)
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, state, lineCount, "line", line )
                     if lineCount == 1: # Title line
-- 
2.43.0


From d16a3d66237b6eff3263230645cb93c1849958ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 02/82] fix: e-Sword Bible load used a non-existent table name
 (BibleOrgSys.Bible)

---
 BibleOrgSys/Formats/ESwordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index cbc3521..72e1910 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1000,7 +1000,7 @@ class ESwordBible( Bible ):
         continued = ourGlobals['haveParagraph'] = False
         haveLines = False
         while True:
-            self.cursor.execute('select Scripture from BibleOrgSys.Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
+            self.cursor.execute('select Scripture from Bible where Book=? and Chapter=? and Verse=?', (nBBB,C,V) )
             try:
                 row = self.cursor.fetchone()
                 line = row[0]
-- 
2.43.0


From cfb5e420d7ea4241e32d922d93824f5bbb779aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:51 +0000
Subject: [PATCH 03/82] fix: BCV book load called a method that had been
 renamed (_processLineFix)

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index a9c361f..796ea8e 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -552,7 +552,7 @@ class BCVBibleBook( BibleBook ):
                     else:
                         if originalMarker is None: originalMarker = marker
                         if text is None: text = ''
-                        adjText, cleanText, extras = self.processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
+                        adjText, cleanText, extras = self._processLineFix( C, V, originalMarker, text, fixErrors ) # separate out the notes (footnotes and cross-references)
                     self._processedLines.append( InternalBibleEntry(marker, originalMarker, adjText, cleanText, extras, text) )
 
             #if loadErrors: self.checkResultsDictionary['Load Errors'] = loadErrors
-- 
2.43.0


From 7c6140e99fc65ae2f2be5d634fb968c1e1df2f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 04/82] fix: allow later parallel loads after a parallel load
 fails (reset alreadyMultiprocessing)

---
 BibleOrgSys/Formats/BCVBible.py     | 15 ++++++------
 BibleOrgSys/Formats/ESFMBible.py    | 17 ++++++-------
 BibleOrgSys/Formats/GoBible.py      | 15 ++++++------
 BibleOrgSys/Formats/OSISXMLBible.py | 15 ++++++------
 BibleOrgSys/Formats/PTX7Bible.py    | 15 ++++++------
 BibleOrgSys/Formats/PTX8Bible.py    | 19 ++++++++-------
 BibleOrgSys/Formats/PickledBible.py | 15 ++++++------
 BibleOrgSys/Formats/USFM2Bible.py   | 15 ++++++------
 BibleOrgSys/Formats/USFMBible.py    | 17 ++++++-------
 BibleOrgSys/Formats/USXXMLBible.py  | 37 +++++++++++++++--------------
 BibleOrgSys/Formats/uWNotesBible.py | 15 ++++++------
 BibleOrgSys/Formats/uWOBSBible.py   | 15 ++++++------
 12 files changed, 111 insertions(+), 99 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 796ea8e..76e759e 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -364,13 +364,14 @@ class BCVBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} BCV books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
-                    assert len(results) == len(self.givenBookList)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
+                        assert len(results) == len(self.givenBookList)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB in self.givenBookList:
diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 6435d3a..7e3f6e1 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -549,14 +549,15 @@ class ESFMBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESFMBible: Loading {} ESFM books using {} processes…".format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed." )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        if bBook is not None:
-                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                            self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
+                        assert len(results) == len(self.maximumPossibleFilenameTuples)
+                        for bBook in results:
+                            if bBook is not None:
+                                bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                                self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB,filename in self.maximumPossibleFilenameTuples:
diff --git a/BibleOrgSys/Formats/GoBible.py b/BibleOrgSys/Formats/GoBible.py
index 89c08df..cc07cc1 100755
--- a/BibleOrgSys/Formats/GoBible.py
+++ b/BibleOrgSys/Formats/GoBible.py
@@ -447,13 +447,14 @@ class GoBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} GoBible books using {} processes…").format( len(self.bookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.bookList ) # have the pool do our loads
-                    assert len(results) == len(self.bookList)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.bookList ) # have the pool do our loads
+                        assert len(results) == len(self.bookList)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB in self.bookList:
diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4416b8a..ff10822 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -376,13 +376,14 @@ class OSISXMLBible( Bible ):
                 vPrint( 'Normal', DEBUGGING_THIS_MODULE, f"Loading {len(self.possibleFilenames)} OSIS books using {BibleOrgSysGlobals.maxProcesses} processes…" )
                 vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookFileMP, self.possibleFilenames ) # have the pool do our loads
-                    assert len(results) == len(self.possibleFilenames)
-                    for bBook,bookLoadErrors in results:
-                        self.stashBook( bBook ) # Saves them in the correct order
-                        loadErrors += bookLoadErrors
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookFileMP, self.possibleFilenames ) # have the pool do our loads
+                        assert len(results) == len(self.possibleFilenames)
+                        for bBook,bookLoadErrors in results:
+                            self.stashBook( bBook ) # Saves them in the correct order
+                            loadErrors += bookLoadErrors
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 for filename in self.possibleFilenames:
                     pathname = os.path.join( self.sourceFolder, filename )
diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index 5ddf4f8..c6ab66e 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1766,13 +1766,14 @@ class PTX7Bible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} PTX7 books using {} processes…").format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed." )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
+                        assert len(results) == len(self.maximumPossibleFilenameTuples)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB,filename in self.maximumPossibleFilenameTuples:
diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index aed8913..81fa4a6 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2861,15 +2861,16 @@ class PTX8Bible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} PTX8 books using {} processes…").format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                        try: self.filepathsNotYetLoaded.remove( bBook.sourceFilepath ) # Can't do this in _loadBookMP() because it's not atomic
-                        except ValueError: logging.critical( "PTX8 {} book file seemed unexpected: {}".format( bBook.BBB, bBook.sourceFilepath ) )
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
+                        assert len(results) == len(self.maximumPossibleFilenameTuples)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                            try: self.filepathsNotYetLoaded.remove( bBook.sourceFilepath ) # Can't do this in _loadBookMP() because it's not atomic
+                            except ValueError: logging.critical( "PTX8 {} book file seemed unexpected: {}".format( bBook.BBB, bBook.sourceFilepath ) )
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB,filename in self.maximumPossibleFilenameTuples:
diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 7caa927..3f4dc7a 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -735,13 +735,14 @@ class PickledBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} {} books using {} processes…").format( len(self.pickleVersionData['bookList']), 'Pickle', BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.pickleVersionData['bookList'] ) # have the pool do our loads
-                    assert len(results) == len(self.pickleVersionData['bookList'])
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.pickleVersionData['bookList'] ) # have the pool do our loads
+                        assert len(results) == len(self.pickleVersionData['bookList'])
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB in self.pickleVersionData['bookList']:
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 8759e54..e20fc5b 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -677,13 +677,14 @@ class USFM2Bible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} USFM2 books using {} processes…").format( len(self.maximumPossibleFilenameTuples), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
+                        assert len(results) == len(self.maximumPossibleFilenameTuples)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB,filename in self.maximumPossibleFilenameTuples:
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 252d910..ab27b1c 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -661,14 +661,15 @@ class USFMBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} USFM books using {} processes…").format( len(self.maximumPossibleFilenameTuples), numProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=numProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
-                    assert len(results) == len(self.maximumPossibleFilenameTuples)
-                    for bBook in results:
-                        #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=numProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
+                        assert len(results) == len(self.maximumPossibleFilenameTuples)
+                        for bBook in results:
+                            #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB,filename in self.maximumPossibleFilenameTuples:
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 3a0f245..1ae0ea8 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -303,24 +303,25 @@ class USXXMLBible( Bible ):
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Loading {} {} books using {} processes…").format( len(parameters), 'USX', BibleOrgSysGlobals.maxProcesses ) )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
             BibleOrgSysGlobals.alreadyMultiprocessing = True
-            with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                results = pool.map( self._loadBookMP, parameters ) # have the pool do our loads
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "results", results )
-                #assert len(results) == len(parameters)
-                for j, UBB in enumerate( results ):
-                    BBB = parameters[j]
-                    #self.books[BBB] = UBB
-                    UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
-                    self.stashBook( UBB )
-                    # Make up our book name dictionaries while we're at it
-                    assumedBookNames = UBB.getAssumedBookNames()
-                    for assumedBookName in assumedBookNames:
-                        self.BBBToNameDict[BBB] = assumedBookName
-                        assumedBookNameLower = assumedBookName.lower()
-                        self.bookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
-                        self.combinedBookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
-                        if ' ' in assumedBookNameLower: self.combinedBookNameDict[assumedBookNameLower.replace(' ','')] = BBB # Store the deduced book name (lower case without spaces)
-            BibleOrgSysGlobals.alreadyMultiprocessing = False
+            try:
+                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                    results = pool.map( self._loadBookMP, parameters ) # have the pool do our loads
+                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "results", results )
+                    #assert len(results) == len(parameters)
+                    for j, UBB in enumerate( results ):
+                        BBB = parameters[j]
+                        #self.books[BBB] = UBB
+                        UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
+                        self.stashBook( UBB )
+                        # Make up our book name dictionaries while we're at it
+                        assumedBookNames = UBB.getAssumedBookNames()
+                        for assumedBookName in assumedBookNames:
+                            self.BBBToNameDict[BBB] = assumedBookName
+                            assumedBookNameLower = assumedBookName.lower()
+                            self.bookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
+                            self.combinedBookNameDict[assumedBookNameLower] = BBB # Store the deduced book name (just lower case)
+                            if ' ' in assumedBookNameLower: self.combinedBookNameDict[assumedBookNameLower.replace(' ','')] = BBB # Store the deduced book name (lower case without spaces)
+            finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
         else: # Just single threaded
             for BBB,filename in self.possibleFilenameDict.items():
                 self.loadBook( BBB, filename ) # also saves it
diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index 6edcfca..4e1173c 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -597,13 +597,14 @@ class uWNotesBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW Notes books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
-                    assert len(results) == len(self.givenBookList)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
+                        assert len(results) == len(self.givenBookList)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB in self.givenBookList:
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index 6bd57cd..2d5de7e 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -318,13 +318,14 @@ class uWOBSBible( Bible ):
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW OBS books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
                 BibleOrgSysGlobals.alreadyMultiprocessing = True
-                with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
-                    results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
-                    assert len(results) == len(self.givenBookList)
-                    for bBook in results:
-                        bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
-                        self.stashBook( bBook ) # Saves them in the correct order
-                BibleOrgSysGlobals.alreadyMultiprocessing = False
+                try:
+                    with multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses ) as pool: # start worker processes
+                        results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
+                        assert len(results) == len(self.givenBookList)
+                        for bBook in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
+                            self.stashBook( bBook ) # Saves them in the correct order
+                finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
             else: # Just single threaded
                 # Load the books one by one -- assuming that they have regular Paratext style filenames
                 for BBB in self.givenBookList:
-- 
2.43.0


From ac863e4035e2d977d9e352ceb14967ed8df12953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 05/82] fix: parallel loads treat blank and already loaded
 books the same as sequential loads

---
 BibleOrgSys/Formats/BCVBible.py     | 9 +++++++--
 BibleOrgSys/Formats/ESFMBible.py    | 5 ++++-
 BibleOrgSys/Formats/GoBible.py      | 2 +-
 BibleOrgSys/Formats/PTX7Bible.py    | 4 ++++
 BibleOrgSys/Formats/PTX8Bible.py    | 5 ++++-
 BibleOrgSys/Formats/USFM2Bible.py   | 4 ++++
 BibleOrgSys/Formats/USFMBible.py    | 4 ++++
 BibleOrgSys/Formats/uWNotesBible.py | 9 +++++++--
 BibleOrgSys/Formats/uWOBSBible.py   | 9 +++++++--
 9 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index 76e759e..fc23f6b 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -336,13 +336,16 @@ class BCVBible( Bible ):
         Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
         """
         fnPrint( DEBUGGING_THIS_MODULE, _("loadBookMP( {} )").format( BBB ) )
-        assert BBB not in self.books
+        if BBB in self.books: return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = BCVBibleBook( self, BBB )
             bcvBB.load( self.sourceFolder )
+            if not bcvBB._processedLines:
+                logging.info( "BCV book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading BCV book {}.").format( BBB ) )
             return bcvBB
@@ -359,7 +362,8 @@ class BCVBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} BCV books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -369,6 +373,7 @@ class BCVBible( Bible ):
                         results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                         assert len(results) == len(self.givenBookList)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank (or unavailable)
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 7e3f6e1..08be815 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -516,13 +516,16 @@ class ESFMBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBookMP( {} )".format( BBB_Filename ) )
         BBB, filename = BBB_Filename
-        assert BBB not in self.books
+        if BBB in self.books: return self.books[BBB] # Already loaded
         if BBB in self.dontLoadBook: return None
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  ESFMBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         EBB = ESFMBibleBook( self, BBB )
         EBB.load( self.possibleFilenameDict[BBB], self.sourceFolder )
+        if not EBB._rawLines:
+            logging.info( "ESFM book {} was completely blank".format( BBB ) )
+            return None
         EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading ESFM book {}.").format( BBB ) )
         return EBB
diff --git a/BibleOrgSys/Formats/GoBible.py b/BibleOrgSys/Formats/GoBible.py
index cc07cc1..1007706 100755
--- a/BibleOrgSys/Formats/GoBible.py
+++ b/BibleOrgSys/Formats/GoBible.py
@@ -417,7 +417,7 @@ class GoBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.bookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index c6ab66e..d2af2d8 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1743,6 +1743,9 @@ class PTX7Bible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -1771,6 +1774,7 @@ class PTX7Bible( Bible ):
                         results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                         assert len(results) == len(self.maximumPossibleFilenameTuples)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank (or unavailable)
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
diff --git a/BibleOrgSys/Formats/PTX8Bible.py b/BibleOrgSys/Formats/PTX8Bible.py
index 81fa4a6..798b375 100755
--- a/BibleOrgSys/Formats/PTX8Bible.py
+++ b/BibleOrgSys/Formats/PTX8Bible.py
@@ -2838,7 +2838,9 @@ class PTX8Bible( Bible ):
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
         if UBB._rawLines:
             UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
-        else: logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+        else:
+            logging.info( "PTX8 USFM book {} was completely blank".format( BBB ) )
+            return None
         self.bookNeedsReloading[BBB] = False
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -2866,6 +2868,7 @@ class PTX8Bible( Bible ):
                         results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                         assert len(results) == len(self.maximumPossibleFilenameTuples)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank or already loaded
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                             try: self.filepathsNotYetLoaded.remove( bBook.sourceFilepath ) # Can't do this in _loadBookMP() because it's not atomic
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index e20fc5b..23145c9 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -654,6 +654,9 @@ class USFM2Bible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFM2BibleBook( self, BBB )
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM2 book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM2 book {}.").format( BBB ) )
         return UBB
@@ -682,6 +685,7 @@ class USFM2Bible( Bible ):
                         results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                         assert len(results) == len(self.maximumPossibleFilenameTuples)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank (or unavailable)
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index ab27b1c..9ca8d96 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -636,6 +636,9 @@ class USFMBible( Bible ):
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + _("Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
         UBB = USFMBibleBook( self, BBB ) # Ensure that we point back to the original instance
         UBB.load( self.possibleFilenameDict[BBB], self.sourceFolder, self.encoding )
+        if not UBB._rawLines:
+            logging.info( "USFM book {} was completely blank".format( BBB ) )
+            return None
         UBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading USFM book {}.").format( BBB ) )
         return UBB
@@ -666,6 +669,7 @@ class USFMBible( Bible ):
                         results = pool.map( self._loadBookMP, self.maximumPossibleFilenameTuples ) # have the pool do our loads
                         assert len(results) == len(self.maximumPossibleFilenameTuples)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank
                             #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"Stashing {bBook.BBB} {id(bBook)} with {id(bBook.containerBibleObject)}" )
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index 4e1173c..f3f2c9b 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -569,13 +569,16 @@ class uWNotesBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = uWNotesBibleBook( self, BBB )
             bcvBB.load( self.possibleFilenameDict[BBB] )
+            if not bcvBB._rawLines:
+                logging.info( "uW Notes book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading uW Notes book {}.").format( BBB ) )
             return bcvBB
@@ -592,7 +595,8 @@ class uWNotesBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW Notes books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -602,6 +606,7 @@ class uWNotesBible( Bible ):
                         results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                         assert len(results) == len(self.givenBookList)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank (or unavailable)
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index 2d5de7e..a25d204 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -290,13 +290,16 @@ class uWOBSBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        assert BBB not in self.books
+        if BBB in self.books: return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ' + "Loading {} from {} from {}…".format( BBB, self.name, self.sourceFolder ) )
             bcvBB = uWOBSBibleBook( self, BBB )
             bcvBB.load()
+            if not bcvBB._rawLines:
+                logging.info( "uW OBS book {} was completely blank".format( BBB ) )
+                return None
             bcvBB.validateMarkers()
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("    Finishing loading uW OBS book {}.").format( BBB ) )
             return bcvBB
@@ -313,7 +316,8 @@ class uWOBSBible( Bible ):
         if not self.preloadDone: self.preload()
 
         if self.givenBookList:
-            if BibleOrgSysGlobals.maxProcesses > 1: # Load all the books as quickly as possible
+            if BibleOrgSysGlobals.maxProcesses > 1 \
+            and not BibleOrgSysGlobals.alreadyMultiprocessing: # Load all the books as quickly as possible
                 if BibleOrgSysGlobals.verbosityLevel > 1:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("Loading {} uW OBS books using {} processes…").format( len(self.givenBookList), BibleOrgSysGlobals.maxProcesses ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  NOTE: Outputs (including error and warning messages) from loading various books may be interspersed.") )
@@ -323,6 +327,7 @@ class uWOBSBible( Bible ):
                         results = pool.map( self._loadBookMP, self.givenBookList ) # have the pool do our loads
                         assert len(results) == len(self.givenBookList)
                         for bBook in results:
+                            if bBook is None: continue # It was completely blank (or unavailable)
                             bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
-- 
2.43.0


From 8ca191edd069ad40af8797d39018307fb03990c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 06/82] fix: USX parallel load uses the same file list as the
 sequential load

---
 BibleOrgSys/Formats/USXXMLBible.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 1ae0ea8..95fcf72 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -297,7 +297,7 @@ class USXXMLBible( Bible ):
         and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
             # Load all the books as quickly as possible
             parameters = []
-            for BBB,filename in self.USXFilenamesObject.getConfirmedFilenameTuples():
+            for BBB in self.possibleFilenameDict:
                 parameters.append( BBB )
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "parameters", parameters )
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Loading {} {} books using {} processes…").format( len(parameters), 'USX', BibleOrgSysGlobals.maxProcesses ) )
@@ -310,6 +310,7 @@ class USXXMLBible( Bible ):
                     #assert len(results) == len(parameters)
                     for j, UBB in enumerate( results ):
                         BBB = parameters[j]
+                        if UBB is None: continue # It was already loaded
                         #self.books[BBB] = UBB
                         UBB.containerBibleObject = self # Because the pickling and unpickling messes this up
                         self.stashBook( UBB )
-- 
2.43.0


From 050501bc124de3e7694e2b67aa2071c2fc06c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 07/82] fix: OSIS parallel load points the books back to their
 Bible

---
 BibleOrgSys/Formats/OSISXMLBible.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index ff10822..c3ab2bd 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -381,6 +381,7 @@ class OSISXMLBible( Bible ):
                         results = pool.map( self._loadBookFileMP, self.possibleFilenames ) # have the pool do our loads
                         assert len(results) == len(self.possibleFilenames)
                         for bBook,bookLoadErrors in results:
+                            bBook.containerBibleObject = self # Because the pickling and unpickling messes this up
                             self.stashBook( bBook ) # Saves them in the correct order
                             loadErrors += bookLoadErrors
                 finally: BibleOrgSysGlobals.alreadyMultiprocessing = False # even if the load failed
-- 
2.43.0


From 13e0b13fb82c21ed73fad994088329288ca73aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 08/82] fix: PickledBible loads one or two books, and
 sequentially as in parallel

---
 BibleOrgSys/Formats/PickledBible.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index 3f4dc7a..e4eccd9 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -691,7 +691,9 @@ class PickledBible( Bible ):
                 logging.warning( "We had already tried loading Pickle {} for {}".format( BBB, self.name ) )
                 return # We've already attempted to load this book
 
-        self.books[BBB] = self._loadBookEssentials( BBB )
+        bookObject = self._loadBookEssentials( BBB )
+        bookObject.containerBibleObject = self # Same as when we load in parallel
+        self.stashBook( bookObject )
     # end of PickledBible.loadBook
 
 
@@ -726,7 +728,7 @@ class PickledBible( Bible ):
             logging.critical( "PickledBible.loadBooks() failed" )
             return
 
-        if len( self.pickleVersionData['bookList'] ) > 2:
+        if self.pickleVersionData['bookList']:
             if BibleOrgSysGlobals.maxProcesses > 1 \
             and not BibleOrgSysGlobals.alreadyMultiprocessing: # Get our subprocesses ready and waiting for work
                 # Load all the books as quickly as possible
-- 
2.43.0


From c3aca249ea1fa8bd81b566348aa21241f30cb649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 09/82] fix: choice between several files for one book no
 longer depends on the folder listing order

---
 BibleOrgSys/Formats/OSISXMLBible.py      | 2 +-
 BibleOrgSys/InputOutput/USFMFilenames.py | 8 ++++----
 BibleOrgSys/InputOutput/USXFilenames.py  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index c3ab2bd..eef9ff2 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -296,7 +296,7 @@ class OSISXMLBible( Bible ):
         if os.path.isdir( self.sourceFilepath ): # We've been given a folder -- see if we can find the files
             self.sourceFolder = self.sourceFilepath
             # There's no standard for OSIS xml file naming
-            fileList = os.listdir( self.sourceFilepath )
+            fileList = sorted( os.listdir( self.sourceFilepath ) )
             # First try looking for OSIS book names
             BBBList = []
             for filename in fileList:
diff --git a/BibleOrgSys/InputOutput/USFMFilenames.py b/BibleOrgSys/InputOutput/USFMFilenames.py
index 19ae377..379d6a3 100755
--- a/BibleOrgSys/InputOutput/USFMFilenames.py
+++ b/BibleOrgSys/InputOutput/USFMFilenames.py
@@ -119,7 +119,7 @@ class USFMFilenames:
 
         # Find how many files are in our folder
         self.lastTupleList = None
-        for possibleFilename in os.listdir( self.givenFolderName ):
+        for possibleFilename in sorted( os.listdir( self.givenFolderName ) ):
             pFUpper = possibleFilename.upper()
             if pFUpper in FILENAMES_TO_IGNORE: continue
             pFUpperProper, pFUpperExt = os.path.splitext( pFUpper )
@@ -322,7 +322,7 @@ class USFMFilenames:
         self._fileDictionary = {} # The keys are 2-tuples of folder, filename, the values are all valid BBB values
         self._BBBDictionary = {} # The keys are valid BBB values, the values are all 2-tuples of folder, filename
 
-        folderFilenames = os.listdir( givenFolder )
+        folderFilenames = sorted( os.listdir( givenFolder ) )
         for possibleFilename in folderFilenames:
             pFUpper = possibleFilename.upper()
             if pFUpper in FILENAMES_TO_IGNORE: continue
@@ -540,7 +540,7 @@ class USFMFilenames:
             NOTE: This list depends on which "find" routine above was run last!
             The order of the filenames in the list has no meaning.
         """
-        folderFilenames = os.listdir( self.givenFolderName )
+        folderFilenames = sorted( os.listdir( self.givenFolderName ) )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, len(folderFilenames), folderFilenames )
         if self.lastTupleList is None: return None # Not sure what list they're after here
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, len(self.lastTupleList), self.lastTupleList )
@@ -563,7 +563,7 @@ class USFMFilenames:
         """
         def getSSFFilenamesHelper( folder ):
             resultPathlist = []
-            files = os.listdir( folder )
+            files = sorted( os.listdir( folder ) )
             for foundFilename in files:
                 if not foundFilename.endswith('~'): # Ignore backup files
                     foundFileBit, foundExtBit = os.path.splitext( foundFilename )
diff --git a/BibleOrgSys/InputOutput/USXFilenames.py b/BibleOrgSys/InputOutput/USXFilenames.py
index c749611..075b3b8 100755
--- a/BibleOrgSys/InputOutput/USXFilenames.py
+++ b/BibleOrgSys/InputOutput/USXFilenames.py
@@ -86,7 +86,7 @@ class USXFilenames:
         #self._BibleditBooksCodeNumberTriples = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllBibleditBooksCodeNumberTriples()
 
         # Find how many files are in our folder
-        for possibleFilename in os.listdir( self.givenFolderName ):
+        for possibleFilename in sorted( os.listdir( self.givenFolderName ) ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "possibleFilename", possibleFilename )
             pFUpper = possibleFilename.upper()
             if pFUpper in filenamesToIgnore: continue
@@ -327,7 +327,7 @@ class USXFilenames:
             The order of the filenames in the list has no meaning.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "USXFilenames.getUnusedFilenames()" )
-        folderFilenames = os.listdir( self.givenFolderName )
+        folderFilenames = sorted( os.listdir( self.givenFolderName ) )
         actualFilenames = self.getConfirmedFilenameTuples()
         filelist = []
         for BBB,actualFilename in actualFilenames:
-- 
2.43.0


From ee5b71266ad07c6191131934b281148bb16a551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 10/82] fix: asking SQLite Bibles for a book they don't have
 gives the same answer before and after a full load

---
 BibleOrgSys/Formats/ESwordBible.py  | 6 +++++-
 BibleOrgSys/Formats/MyBibleBible.py | 1 +
 BibleOrgSys/Formats/MySwordBible.py | 6 +++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 72e1910..e4eade2 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1084,6 +1084,7 @@ class ESwordBible( Bible ):
         if BBB in self.books:
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return # Already loaded
+        if self.loadedAllBooks: return # All the books were loaded and so the database is already closed
         if BBB in self.triedLoadingBook:
             logging.warning( "We had already tried loading e-SwordBible {} for {}".format( BBB, self.name ) )
             return # We've already attempted to load this book
@@ -1097,7 +1098,10 @@ class ESwordBible( Bible ):
         thisBook.objectNameString = 'e-Sword Bible Book object'
         thisBook.objectTypeString = 'e-Sword-Bible'
 
-        verseList = self.BibleOrganisationalSystem.getNumVersesList( BBB )
+        try: verseList = self.BibleOrganisationalSystem.getNumVersesList( BBB )
+        except KeyError: # Not a book that can be in the database
+            logging.warning( "ESwordBible.loadBook: No {} book expected in {}".format( BBB, self.sourceFilepath ) )
+            return
         numC, numV = len(verseList), verseList[0]
         nBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
         C = V = 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index acae0d7..ef69144 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -526,6 +526,7 @@ class MyBibleBible( Bible ):
         if BBB in self.books:
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return # Already loaded
+        if self.loadedAllBooks: return # All the books were loaded and so the database is already closed
         if BBB in self.triedLoadingBook:
             logging.warning( "We had already tried loading MyBibleBible {} for {}".format( BBB, self.name ) )
             return # We've already attempted to load this book
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 3566b7f..5ea2de2 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -371,6 +371,7 @@ class MySwordBible( Bible ):
         if BBB in self.books:
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return # Already loaded
+        if self.loadedAllBooks: return # All the books were loaded and so the database is already closed
         if BBB in self.triedLoadingBook:
             logging.warning( "We had already tried loading MySwordBible {} for {}".format( BBB, self.name ) )
             return # We've already attempted to load this book
@@ -394,7 +395,10 @@ class MySwordBible( Bible ):
         thisBook.objectNameString = 'MySword Bible Book object'
         thisBook.objectTypeString = 'MySword'
 
-        verseList = self.BibleOrganisationalSystem.getNumVersesList( BBB )
+        try: verseList = self.BibleOrganisationalSystem.getNumVersesList( BBB )
+        except KeyError: # Not a book that can be in the database
+            logging.warning( "MySwordBible.loadBook: No {} book expected in {}".format( BBB, self.sourceFilepath ) )
+            return
         numC, numV = len(verseList), verseList[0]
         nBBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
         C = V = 1
-- 
2.43.0


From 2fa703e61f41b5e1b8f40b751f4a6ae754d3f005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 11/82] fix: reloading a book really loads it again, and
 parallel loads reload books marked as needing it

---
 BibleOrgSys/Formats/BCVBible.py        | 12 +++++++-----
 BibleOrgSys/Formats/ESFMBible.py       | 12 +++++++-----
 BibleOrgSys/Formats/GoBible.py         | 12 +++++++-----
 BibleOrgSys/Formats/PTX7Bible.py       |  2 +-
 BibleOrgSys/Formats/PickledBible.py    |  2 +-
 BibleOrgSys/Formats/USFM2Bible.py      |  2 +-
 BibleOrgSys/Formats/USFMBible.py       |  2 +-
 BibleOrgSys/Formats/USXXMLBible.py     | 12 +++++++-----
 BibleOrgSys/Formats/uWNotesBible.py    | 12 +++++++-----
 BibleOrgSys/Formats/uWOBSBible.py      | 12 +++++++-----
 BibleOrgSys/Internals/InternalBible.py |  2 ++
 11 files changed, 48 insertions(+), 34 deletions(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index fc23f6b..e515071 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -312,10 +312,11 @@ class BCVBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"BCVBible.loadBook( {BBB} )" )
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading BCV {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading BCV {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  BCVBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -327,6 +328,7 @@ class BCVBible( Bible ):
             else: logging.info( "BCV book {} was completely blank".format( BBB ) )
             self.availableBBBs.add( BBB )
         else: logging.info( "BCV book {} is not listed as being available".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of BCVBible.loadBook
 
 
@@ -336,7 +338,7 @@ class BCVBible( Bible ):
         Load the requested book if it's not already loaded (but doesn't save it as that is not safe for multiprocessing)
         """
         fnPrint( DEBUGGING_THIS_MODULE, _("loadBookMP( {} )").format( BBB ) )
-        if BBB in self.books: return self.books[BBB] # Already loaded
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ): return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Formats/ESFMBible.py b/BibleOrgSys/Formats/ESFMBible.py
index 08be815..aa76b47 100755
--- a/BibleOrgSys/Formats/ESFMBible.py
+++ b/BibleOrgSys/Formats/ESFMBible.py
@@ -480,11 +480,12 @@ class ESFMBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBook( {}, {} )".format( BBB, filename ) )
-        if BBB in self.books: return # Already loaded
         if BBB in self.dontLoadBook: return # Must be a dictionary that's already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading ESFM {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
@@ -504,6 +505,7 @@ class ESFMBible( Bible ):
             EBB.validateMarkers() # Usually activates InternalBibleBook.processLines()
             self.stashBook( EBB )
         else: logging.info( "ESFM book {} was completely blank".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of ESFMBible.loadBook
 
 
@@ -516,7 +518,7 @@ class ESFMBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, "ESFMBible.loadBookMP( {} )".format( BBB_Filename ) )
         BBB, filename = BBB_Filename
-        if BBB in self.books: return self.books[BBB] # Already loaded
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ): return self.books[BBB] # Already loaded
         if BBB in self.dontLoadBook: return None
         self.triedLoadingBook[BBB] = True
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Formats/GoBible.py b/BibleOrgSys/Formats/GoBible.py
index 1007706..1984b3f 100755
--- a/BibleOrgSys/Formats/GoBible.py
+++ b/BibleOrgSys/Formats/GoBible.py
@@ -393,10 +393,11 @@ class GoBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"GoBible.loadBook( {BBB} )" )
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading GoBible {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading GoBible {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
         if BBB in self.bookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  GoBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -406,6 +407,7 @@ class GoBible( Bible ):
             self.stashBook( GoBibleBk )
             #else: logging.info( "GoBible book {} was completely blank".format( BBB ) )
         else: logging.info( "GoBible book {} is not listed as being available".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of GoBible.loadBook
 
 
@@ -417,7 +419,7 @@ class GoBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        if BBB in self.books: return self.books[BBB] # Already loaded
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ): return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.bookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Formats/PTX7Bible.py b/BibleOrgSys/Formats/PTX7Bible.py
index d2af2d8..cafa1e5 100755
--- a/BibleOrgSys/Formats/PTX7Bible.py
+++ b/BibleOrgSys/Formats/PTX7Bible.py
@@ -1732,7 +1732,7 @@ class PTX7Bible( Bible ):
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename ) )
 
         BBB, filename = BBB_Filename
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index e4eccd9..bfb6a64 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -706,7 +706,7 @@ class PickledBible( Bible ):
         """
         fnPrint( DEBUGGING_THIS_MODULE, _("loadBookMP( {} )").format( BBB ) )
 
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index 23145c9..be73ab5 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -642,7 +642,7 @@ class USFM2Bible( Bible ):
         fnPrint( DEBUGGING_THIS_MODULE, "loadBookMP( {} )".format( BBB_Filename_duple ) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index 9ca8d96..b5da763 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -624,7 +624,7 @@ class USFMBible( Bible ):
         #dPrint( 'Info', DEBUGGING_THIS_MODULE, f"USFMBible._loadBookMP( {BBB_Filename_duple} )", id(self) )
 
         BBB, filename = BBB_Filename_duple
-        if BBB in self.books:
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ):
             dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  {} is already loaded -- returning".format( BBB ) )
             return self.books[BBB] # Already loaded
         #if BBB in self.triedLoadingBook:
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 95fcf72..63f64d2 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -226,7 +226,8 @@ class USXXMLBible( Bible ):
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
-        if filename is None: filename = self.possibleFilenameDict[BBB]
+        if filename is None and BBB in self.possibleFilenameDict: filename = self.possibleFilenameDict[BBB]
+        if filename is None: raise FileNotFoundError( "USXXMLBible.loadBook: Unable to find file for {}".format( BBB ) )
         UBB = USXXMLBibleBook( self, BBB )
         UBB.load( filename, self.givenFolderName, self.encoding )
         UBB.validateMarkers()
@@ -251,10 +252,11 @@ class USXXMLBible( Bible ):
         if self.doExtraChecking:
             assert self.preloadDone
 
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading USX {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
 
         if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, _("  USXXMLBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
diff --git a/BibleOrgSys/Formats/uWNotesBible.py b/BibleOrgSys/Formats/uWNotesBible.py
index f3f2c9b..83efec8 100755
--- a/BibleOrgSys/Formats/uWNotesBible.py
+++ b/BibleOrgSys/Formats/uWNotesBible.py
@@ -543,10 +543,11 @@ class uWNotesBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"uWNotesBible.loadBook( {BBB} )" )
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading uW Notes {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading uW Notes {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             vPrint( 'Verbose', DEBUGGING_THIS_MODULE, _("  uWNotesBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -558,6 +559,7 @@ class uWNotesBible( Bible ):
             else: logging.info( "uW Notes book {} was completely blank".format( BBB ) )
             self.availableBBBs.add( BBB )
         else: logging.info( "uW Notes book {} is not listed as being available".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of uWNotesBible.loadBook
 
 
@@ -569,7 +571,7 @@ class uWNotesBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        if BBB in self.books: return self.books[BBB] # Already loaded
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ): return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Formats/uWOBSBible.py b/BibleOrgSys/Formats/uWOBSBible.py
index a25d204..7b9bb06 100755
--- a/BibleOrgSys/Formats/uWOBSBible.py
+++ b/BibleOrgSys/Formats/uWOBSBible.py
@@ -264,10 +264,11 @@ class uWOBSBible( Bible ):
         NOTE: You should ensure that preload() has been called first.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"uWOBSBible.loadBook( {BBB} )" )
-        if BBB in self.books: return # Already loaded
-        if BBB in self.triedLoadingBook:
-            logging.warning( "We had already tried loading uW OBS {} for {}".format( BBB, self.name ) )
-            return # We've already attempted to load this book
+        if BBB not in self.bookNeedsReloading or not self.bookNeedsReloading[BBB]:
+            if BBB in self.books: return # Already loaded
+            if BBB in self.triedLoadingBook:
+                logging.warning( "We had already tried loading uW OBS {} for {}".format( BBB, self.name ) )
+                return # We've already attempted to load this book
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             vPrint( 'Verbose', DEBUGGING_THIS_MODULE, _("  uWOBSBible: Loading {} from {} from {}…").format( BBB, self.name, self.sourceFolder ) )
@@ -279,6 +280,7 @@ class uWOBSBible( Bible ):
             else: logging.info( "uW OBS book {} was completely blank".format( BBB ) )
             self.availableBBBs.add( BBB )
         else: logging.info( "uW OBS book {} is not listed as being available".format( BBB ) )
+        self.bookNeedsReloading[BBB] = False
     # end of uWOBSBible.loadBook
 
 
@@ -290,7 +292,7 @@ class uWOBSBible( Bible ):
         Parameter is a 2-tuple containing BBB and the filename.
         """
         fnPrint( DEBUGGING_THIS_MODULE, f"loadBookMP( {BBB} )" )
-        if BBB in self.books: return self.books[BBB] # Already loaded
+        if BBB in self.books and not self.bookNeedsReloading.get( BBB, False ): return self.books[BBB] # Already loaded
         self.triedLoadingBook[BBB] = True
         if BBB in self.givenBookList:
             if BibleOrgSysGlobals.verbosityLevel > 2 or BibleOrgSysGlobals.debugFlag:
diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index b1f4c43..21f1b90 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -414,6 +414,7 @@ class InternalBible:
         fnPrint( DEBUGGING_THIS_MODULE, f"InternalBible.reloadBook( {BBB} )" )
 
         #if BBB not in self.books and BBB not in self.triedLoadingBook:
+        self.bookNeedsReloading[BBB] = True # Otherwise loadBook() would ignore a book that's already loaded
         try: self.loadBook( BBB ) # Some types of Bibles have this function (so an entire Bible doesn't have to be loaded at startup)
         except AttributeError: logging.info( "No function to load individual Bible book: {}".format( BBB ) ) # Ignore errors
         except FileNotFoundError: logging.info( "Unable to find and load individual Bible book: {}".format( BBB ) ) # Ignore errors
@@ -964,6 +965,7 @@ class InternalBible:
             if not suppressErrorFlag:
                 logging.critical( _("stashBook: stashing already stashed {} book!").format( BBB ) )
         self.books[BBB] = bookData
+        self.bookNeedsReloading[BBB] = False # as it's now up to date
         self.availableBBBs.add( BBB )
 
         # Make up our book name dictionaries while we're at it
-- 
2.43.0


From 8112bf992a1b1752740d102d97cccda6ddd68f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:31 +0000
Subject: [PATCH 12/82] fix: backing up a missing file no longer shifts (and
 loses) its older backups, and gaps are filled first

---
 BibleOrgSys/BibleOrgSysGlobals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 3f77e2c..de64c57 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -677,7 +677,12 @@ def backupAnyExistingFile( filenameOrFilepath:Path|str, numBackups:int=1, extens
     if debugFlag and DEBUGGING_THIS_MODULE:
         assert not str(filenameOrFilepath).lower().endswith( '.bak' )
 
+    if not os.access( filenameOrFilepath, os.F_OK ): return # Nothing to back up (so don't shift and lose the older backups)
     if extension[0] != '.': extension = '.' + extension
+    for n in range( 1, numBackups ): # Only need to shift as far as any gap (maybe from an interrupted backup)
+        if not os.access( str(filenameOrFilepath) + extension + ('' if n==1 else str(n)), os.F_OK ):
+            numBackups = n
+            break
     for n in range( numBackups, 0, -1 ): # e.g., 4,3,2,1
         source = str(filenameOrFilepath) + ('' if n==1 else (extension + ('' if n<3 else str(n-1))))
         destination = str(filenameOrFilepath) + extension + ('' if n==1 else str(n))
-- 
2.43.0


From 92ee1af74e3f41e32e705a89a9e5ce0904b72f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 13/82] fix: findReplaceText works without a replaceHistoryList
 and with a contextLength of 0

---
 BibleOrgSys/Formats/USFM2Bible.py | 5 +++--
 BibleOrgSys/Formats/USFMBible.py  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/USFM2Bible.py b/BibleOrgSys/Formats/USFM2Bible.py
index be73ab5..bf8d1f9 100755
--- a/BibleOrgSys/Formats/USFM2Bible.py
+++ b/BibleOrgSys/Formats/USFM2Bible.py
@@ -306,6 +306,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
@@ -411,7 +412,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + regexReplacementText + contextAfter
+                            willBeText = (contextBefore or '') + regexReplacementText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, regexFoundText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
@@ -459,7 +460,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + ourReplaceText + contextAfter
+                            willBeText = (contextBefore or '') + ourReplaceText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, ourFindText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
diff --git a/BibleOrgSys/Formats/USFMBible.py b/BibleOrgSys/Formats/USFMBible.py
index b5da763..f0d5886 100755
--- a/BibleOrgSys/Formats/USFMBible.py
+++ b/BibleOrgSys/Formats/USFMBible.py
@@ -274,6 +274,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
     # Go through all the given options
     if 'workName' not in optionsDict: optionsDict['workName'] = self.abbreviation if self.abbreviation else self.name
     if 'findHistoryList' not in optionsDict: optionsDict['findHistoryList'] = [] # Oldest first
+    if 'replaceHistoryList' not in optionsDict: optionsDict['replaceHistoryList'] = [] # Oldest first
     if 'wordMode' not in optionsDict: optionsDict['wordMode'] = 'Any' # or 'Whole' or 'EndsWord' or 'Begins' or 'EndsLine'
     #if 'caselessFlag' not in optionsDict: optionsDict['caselessFlag'] = True
     #if 'ignoreDiacriticsFlag' not in optionsDict: optionsDict['ignoreDiacriticsFlag'] = False
@@ -379,7 +380,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + regexReplacementText + contextAfter
+                            willBeText = (contextBefore or '') + regexReplacementText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, regexFoundText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
@@ -427,7 +428,7 @@ def findReplaceText( self, optionsDict, confirmCallback ):
                         result = None
                         if not replaceAllFlag:
                             ref = BBB
-                            willBeText = contextBefore + ourReplaceText + contextAfter
+                            willBeText = (contextBefore or '') + ourReplaceText + (contextAfter or '')
                             result = confirmCallback( ref, contextBefore, ourFindText, contextAfter, willBeText, resultDict['numReplaces']>0 )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "findReplaceText got", result )
                             assert result in 'YNASU'
-- 
2.43.0


From e955a9fb1856f9573b5ae8d38b0383de7d2d781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 14/82] fix: settings survive interrupted and simultaneous
 starts (atomic write, folder creation races, % in home folder)

---
 BibleOrgSys/BibleOrgSysGlobals.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index de64c57..fe8b096 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -307,28 +307,29 @@ def findHomeFolderpath() -> Path|None:
 APP_NAME = 'BibleOrgSys'
 SETTINGS_VERSION = '1.00'
 BOS_HOME_FOLDERPATH = findHomeFolderpath().joinpath( f'{APP_NAME}Data/' )
-if not BOS_HOME_FOLDERPATH.exists():
-    os.mkdir( BOS_HOME_FOLDERPATH )
+os.makedirs( BOS_HOME_FOLDERPATH, exist_ok=True ) # Another program might be starting at the same time
 
 BOS_SETTINGS_FOLDERPATH = BOS_HOME_FOLDERPATH.joinpath( 'BOSSettings/' )
-if not BOS_SETTINGS_FOLDERPATH.exists():
-    os.mkdir( BOS_SETTINGS_FOLDERPATH )
+os.makedirs( BOS_SETTINGS_FOLDERPATH, exist_ok=True )
 BOS_SETTINGS_FILEPATH = BOS_SETTINGS_FOLDERPATH.joinpath( 'BibleOrgSys.ini' )
 settingsData = configparser.ConfigParser()
 settingsData.optionxform = lambda option: option # Force true case matches for options (default is all lower case)
-settingsData['Default'] = { 'OutputBaseFolder':f'{BOS_HOME_FOLDERPATH}/' }
+settingsData['Default'] = { 'OutputBaseFolder':f'{BOS_HOME_FOLDERPATH}/'.replace( '%', '%%' ) } # because ConfigParser uses % for interpolation
 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "settingsData Default OutputFolder", settingsData['Default']['OutputFolder'] )
 if BOS_SETTINGS_FILEPATH.is_file():
-    settingsData.read( BOS_SETTINGS_FILEPATH )
+    settingsData.read( BOS_SETTINGS_FILEPATH, encoding='utf-8' )
 else: # we don't seem to have a pre-existing settings file -- save our default one
     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Writing default {APP_NAME} settings file v{SETTINGS_VERSION} to {BOS_SETTINGS_FILEPATH}")
-    with open( BOS_SETTINGS_FILEPATH, 'wt', encoding='utf-8' ) as settingsFile: # It may or may not have previously existed
+    # Write it to a temporary file first so that an interrupted or simultaneous start can't leave/read a partial settings file
+    tempSettingsFilepath = BOS_SETTINGS_FOLDERPATH.joinpath( f'{BOS_SETTINGS_FILEPATH.name}.{os.getpid()}.tmp' )
+    with open( tempSettingsFilepath, 'wt', encoding='utf-8' ) as settingsFile: # It may or may not have previously existed
         # Put a (comment) heading in the file first
         settingsFile.write( '# ' + _("{} settings file v{}").format( APP_NAME, SETTINGS_VERSION ) + '\n' )
         settingsFile.write( '# ' + _("Originally saved {} as {}") \
             .format( datetime.now().strftime('%Y-%m-%d %H:%M:%S'), BOS_SETTINGS_FILEPATH ) + '\n\n' )
 
         settingsData.write( settingsFile )
+    os.replace( tempSettingsFilepath, BOS_SETTINGS_FILEPATH )
 if debugFlag and DEBUGGING_THIS_MODULE:
     for section in settingsData:
         dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"  Settings.load: s.d main section = {section}" )
@@ -398,7 +399,7 @@ def setupLoggingToFile( SHORT_PROGRAM_NAMEParameter:str, programVersionParameter
 
     # Create the folderpath if necessary
     if not os.access( folderpath, os.W_OK ):
-        os.makedirs( folderpath ) # Works for an absolute or a relative pathname
+        os.makedirs( folderpath, exist_ok=True ) # Works for an absolute or a relative pathname
 
     # Rename the existing file to a backup copy if it already exists
     backupAnyExistingFile( filepath, numBackups=4 )
@@ -457,7 +458,7 @@ def addLogfile( projectName:str, folderName:Path|None=None ) -> tuple[Path,loggi
 
     # Create the folderName if necessary
     if not os.access( folderName, os.W_OK ):
-        os.makedirs( folderName ) # Works for an absolute or a relative pathname
+        os.makedirs( folderName, exist_ok=True ) # Works for an absolute or a relative pathname
 
     # Rename the existing file to a backup copy if it already exists
     backupAnyExistingFile( filepath, numBackups=4 )
-- 
2.43.0


From e799fd9562e54ee9b86c0c50a07a906c602a39d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 15/82] fix: theWord/MySword exports keep the text after a
 cross-reference (and don't crash when there isn't any)

---
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 2b84c5e..cb4b8f3 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -426,7 +426,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
             assert ixEnd != -1
             xrList = line[ixXT+4:ixEnd].strip().split(';')
             newList = [f'<RX {entry.strip()}>' for entry in xrList]
-            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3]}" # Reassemble the line
+            line = f"{line[:ixStart]}{''.join(newList)}{line[ixEnd+3:]}" # Reassemble the line
         else:
             logging.critical( "theWordAdjustLine had footnote nesting problem with {BBB} {C}:{V} '{originalLine}'" )
             line = removeUSFMCharacterField( 'x', originalLine, closedFlag=True ).lstrip() # Remove superfluous spaces
-- 
2.43.0


From 4e739cd551fa398e0109c06cfcf8238c7d6e57a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 16/82] fix: toHTML5 works when its output folder already
 exists

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index b094df8..7f57971 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2061,7 +2061,7 @@ class BibleWriter( InternalBible ):
         if not self.doneSetupGeneric: self.__setupWriter()
         if not outputFolderpath: outputFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_OUTPUT_FOLDERPATH.joinpath( 'BOS_HTML5_Export/' )
         WEBoutputFolder = os.path.join( outputFolderpath, 'Website/' )
-        if not os.access( outputFolderpath, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
+        if not os.access( WEBoutputFolder, os.F_OK ): os.makedirs( WEBoutputFolder ) # Make the empty folder if there wasn't already one there
 
         if not controlDict:
             controlDict, defaultControlFilename = {}, "To_HTML5_controls.txt"
-- 
2.43.0


From 761d809967808e629ae434f9e93ba50e0fd0854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 17/82] fix: doAllExports survives a timeout (count of results)
 and always allows later multiprocessing

---
 BibleOrgSys/BibleWriter.py | 43 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 7f57971..90b8583 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -9932,27 +9932,28 @@ class BibleWriter( InternalBible ):
             if wantPDFs: timeoutFactor += 12 # seems about 2 minutes for 68 books
             processorFactor = 1.0 # Make bigger for a slower CPU, or can make smaller for a fast one
             timeoutSeconds = max( 60, int(timeoutFactor*len(self.books)*processorFactor) ) # (was 1200s=20m but failed for projects with > 66 books)
-            pool = multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses )
-            asyncResultObject = pool.map_async( self.doExportHelper, zip(self.__outputProcesses,self.__outputFolders) ) # have the pool do our loads
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results1 are", asyncResultObject )
-            pool.close() # Can't add more workers to the pool now
-            asyncResultObject.wait( timeoutSeconds ) # Wait for every worker to finish
-            # Once the timeout has finished we can try to get the results
-            if asyncResultObject.ready():
-                results = asyncResultObject.get()
-            else:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Got a timeout after {} seconds".format( timeoutSeconds ) )
-                pool.terminate() # No results available now
-                #pool.join()
-                #results = asyncResultObject.get() # Should work now
-                result = timeoutSeconds # Will count as True yet be different
-                results = [result if wantPhotoBible else None, # Just have to assume everything worked
-                                    #result if wantODFs else None,
-                                    result if wantPDFs else None,
-                                    result, result, result, result, result, result, result, result, result, result, result, result,
-                                    result, result, result, result, result, result, result, result, result, result, result, ]
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results2 are", results )
-            BibleOrgSysGlobals.alreadyMultiprocessing = False
+            try:
+                pool = multiprocessing.Pool( processes=BibleOrgSysGlobals.maxProcesses )
+                asyncResultObject = pool.map_async( self.doExportHelper, zip(self.__outputProcesses,self.__outputFolders) ) # have the pool do our loads
+                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results1 are", asyncResultObject )
+                pool.close() # Can't add more workers to the pool now
+                asyncResultObject.wait( timeoutSeconds ) # Wait for every worker to finish
+                # Once the timeout has finished we can try to get the results
+                if asyncResultObject.ready():
+                    results = asyncResultObject.get()
+                else:
+                    vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Got a timeout after {} seconds".format( timeoutSeconds ) )
+                    pool.terminate() # No results available now
+                    #pool.join()
+                    #results = asyncResultObject.get() # Should work now
+                    result = timeoutSeconds # Will count as True yet be different
+                    results = [result if wantPhotoBible else None, # Just have to assume everything worked
+                                        #result if wantODFs else None,
+                                        result if wantPDFs else None,
+                                        ] + [result] * (len(self.__outputProcesses)-2)
+                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "async results2 are", results )
+            finally: # Don't prevent later multiprocessing if a worker failed
+                BibleOrgSysGlobals.alreadyMultiprocessing = False
             vPrint( 'Info', DEBUGGING_THIS_MODULE, "BibleWriter.doAllExports: Multiprocessing got {} results".format( len(results) ) )
             assert len(results) == len(self.__outputFolders)
             ( PhotoBibleExportResult, #ODFExportResult,
-- 
2.43.0


From 1bb5fe09ab19f3a4fc47de5be4f126575c6955e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 18/82] fix: toSwordSearcher does not report success after a
 write error

---
 BibleOrgSys/BibleWriter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 90b8583..c668d50 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -7213,6 +7213,7 @@ class BibleWriter( InternalBible ):
         if not os.access( outputFolderpath, os.F_OK ): os.makedirs( outputFolderpath ) # Make the empty folder if there wasn't already one there
 
         ignoredMarkers, unhandledMarkers, unhandledBooks = set(), set(), []
+        haveWriteErrors = False
 
 
         def writeSSHeader( writer ):
@@ -7297,7 +7298,9 @@ class BibleWriter( InternalBible ):
                 if BibleOrgSysGlobals.debugFlag: writeSSBook( myFile, BBB, bookObject ) # Halts on errors
                 else:
                     try: writeSSBook( myFile, BBB, bookObject )
-                    except IOError: logger.critical( "BibleWriter.toSwordSearcher: Unable to output {}".format( BBB ) )
+                    except IOError:
+                        logger.critical( "BibleWriter.toSwordSearcher: Unable to output {}".format( BBB ) )
+                        haveWriteErrors = True
 
         if ignoredMarkers:
             logger.info( "toSwordSearcher: Ignored markers were {}".format( ignoredMarkers ) )
@@ -7315,6 +7318,7 @@ class BibleWriter( InternalBible ):
         zf.write( filepath )
         zf.close()
 
+        if haveWriteErrors: return False # The file is not complete
         if BibleOrgSysGlobals.maxProcesses > 1:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  BibleWriter.toSwordSearcher finished successfully." )
         return True
-- 
2.43.0


From dbe4575e227ea16ddea35b6efaeebe26a9c25301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 19/82] fix: toHTML5 does not report success after failing
 part-way through a book

---
 BibleOrgSys/BibleWriter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c668d50..02df2f9 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2513,7 +2513,7 @@ class BibleWriter( InternalBible ):
             except KeyError: filename = BBB + '.html'
             filenameDict[BBB] = BibleOrgSysGlobals.makeSafeFilename( filename.replace( ' ', '_' ) )
 
-        html5Globals = {}
+        html5Globals, haveBookErrors = {}, False
         if 'HTML5Files' not in controlDict or controlDict['HTML5Files']=='byBook':
             for BBB,bookData in self.books.items(): # Now export the books
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, _("    Exporting {} to HTML5 format…").format( BBB ) )
@@ -2529,6 +2529,7 @@ class BibleWriter( InternalBible ):
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
                             f'BibleWriter.toHTML5: Unexpected {err} with {BBB}: {traceback.format_exc()})' )
                         logger.error( "toHTML5: Oops, creating {} failed with {}!".format( BBB, err ) )
+                        haveBookErrors = True
                 xw.writeLineClose( 'html' )
                 xw.close()
             writeHomePage()
@@ -2552,6 +2553,7 @@ class BibleWriter( InternalBible ):
         zf.close()
 
         if validationSchema: validationResult = xw.validate( validationSchema ) # Returns a 3-tuple: intCode, logString, errorLogString
+        if haveBookErrors: return False # At least one page is not complete
         if BibleOrgSysGlobals.maxProcesses > 1:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  BibleWriter.toHTML5 finished successfully." )
         if validationSchema: return validationResult # Returns a 3-tuple: intCode, logString, errorLogString
-- 
2.43.0


From 787f962b7900e147942b48627972a49c0b841cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 20/82] fix: saving a pickled Bible no longer breaks the
 exports that follow (genericBOS was deleted)

---
 BibleOrgSys/Internals/InternalBible.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index 21f1b90..cf3ab07 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -1004,8 +1004,12 @@ class InternalBible:
         
         try: del self.XMLTree # No need to hold onto this XML source code
         except AttributeError: pass
-        try: del self.genericBOS # This is unpicklable for some reason
-        except AttributeError: pass
+        # The genericBOS is unpicklable for some reason, so leave our BibleWriter set-up out of the saved object
+        #   (but we'll still need it ourselves for any exports that follow)
+        writerSetup = { name:self.__dict__.pop( name ) for name in ('genericBOS','genericBRL') if name in self.__dict__ }
+        if 'doneSetupGeneric' in self.__dict__:
+            writerSetup['doneSetupGeneric'] = self.doneSetupGeneric
+            self.doneSetupGeneric = False
             # CRITICAL: BibleOrgSysGlobals: Unexpected error in pickleObject: <class '_pickle.PicklingError'> Can't pickle <class 'BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems'>: it's not the same object as BibleOrgSys.Reference.BibleBooksNames.BibleBooksNamesSystems
             # CRITICAL: Can't pickle badAttribute='books' when pickling <class 'dict'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
             # CRITICAL: Can't pickle badAttribute='genericBOS' when pickling <class 'BibleOrgSys.Reference.BibleOrganisationalSystems.BibleOrganisationalSystem'> from <class 'BibleOrgSys.Formats.ZefaniaXMLBible.ZefaniaXMLBible'>
@@ -1020,6 +1024,7 @@ class InternalBible:
                 # Ignore errors
             else: # it's some other attribute error in the loadBook function
                 raise
+        finally: self.__dict__.update( writerSetup )
 
         return pResult
     # end of InternalBible.pickle
-- 
2.43.0


From 24e70d7ba0461bb7d2ed07fc04ea68a59b48776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 21/82] fix: USFM2 zip file doesn't include the other archives
 left by an earlier export

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 02df2f9..542ade2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -763,7 +763,7 @@ class BibleWriter( InternalBible ):
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping USFM2 files…" )
         zf = zipfile.ZipFile( os.path.join( outputFolderpath, 'AllUSFM2Files.zip' ), 'w', compression=zipfile.ZIP_DEFLATED )
         for filename in os.listdir( outputFolderpath ):
-            if not filename.endswith( '.zip' ):
+            if filename.endswith( '.usfm' ): # Not the other archives from an earlier export
                 filepath = os.path.join( outputFolderpath, filename )
                 zf.write( filepath, filename ) # Save in the archive without the path
         zf.close()
-- 
2.43.0


From d2d30dcba4a4ab74d7e5b60a7c5bdbedab4d29ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 22/82] fix: pickled Bibles recognise damaged, cut-short or
 mixed-up files (digests), and are found one folder down

---
 BibleOrgSys/Formats/PickledBible.py | 53 ++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 5 deletions(-)

diff --git a/BibleOrgSys/Formats/PickledBible.py b/BibleOrgSys/Formats/PickledBible.py
index bfb6a64..a248b57 100755
--- a/BibleOrgSys/Formats/PickledBible.py
+++ b/BibleOrgSys/Formats/PickledBible.py
@@ -49,7 +49,9 @@ from gettext import gettext as _
 from typing import Any
 from pathlib import Path
 import os
+import io
 import logging
+import hashlib
 import pickle
 import zipfile
 import multiprocessing
@@ -166,6 +168,7 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
                     #somethingUpper = something.upper()
                     if something in (ZIPPED_PICKLE_FILENAME_END, VERSION_FILENAME):
                         foundSubfiles.append( something )
+                        foundProjects.append( tryFolderName )
                         numFound += 1
         except PermissionError: pass # can't read folder, e.g., system folder
 
@@ -182,6 +185,15 @@ def PickledBibleFileCheck( givenPathname:Path, strictCheck:bool=True, autoLoad:b
 
 
 
+def _getDigest( fileData:bytes ) -> str:
+    """
+    Used to recognise files which are damaged, incomplete, or don't belong to this saved Bible.
+    """
+    return hashlib.sha256( fileData ).hexdigest()
+# end of PickledBible._getDigest
+
+
+
 def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[str,any]|None=None, dataLevel:int=1, zipOnly:bool=False ) -> bool:
     """
     Saves the Python book objects as pickle files
@@ -291,6 +303,13 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
             logging.critical( "BibleOrgSysGlobals.pickleObject: Unable to pickle Bible into {}".format( filename ) )
             return False
 
+    # Remember exactly what was saved, so that we can recognise damaged files
+    #   or files left over from an earlier (or an interrupted) save
+    fileDigests = {}
+    for filename in createdFilenames:
+        with open( os.path.join( outputFolder, filename ), 'rb' ) as pickleInputFile:
+            fileDigests[filename] = _getDigest( pickleInputFile.read() )
+
     # Now pickle the version object
     from BibleOrgSys.Internals.InternalBible import LAST_MODIFIED_DATE as IBModifiedDate
     from BibleOrgSys.Internals.InternalBible import PROGRAM_NAME_VERSION as IBPROGRAM_NAME_VERSION
@@ -309,7 +328,7 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                         f'{IBBPROGRAM_NAME_VERSION} {"last modified"} {IBBModifiedDate}',
                         f'{IBIPROGRAM_NAME_VERSION} {"last modified"} {IBIModifiedDate}',
                         BibleObject.getAName(), BibleObject.getBookList(),
-                        metadataDict ):
+                        { **metadataDict, 'fileDigests':fileDigests } ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "String size", something, BibleOrgSysGlobals.totalSize( something ) )
             try:
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Pickling", repr(something) )
@@ -319,6 +338,10 @@ def createPickledBible( BibleObject:Bible, outputFolder=None, metadataDict:dict[
                 logging.critical( "BibleOrgSysGlobals.pickleObject: Unable to pickle Bible into {}".format( filename ) )
                 return False
 
+    with open( filepath, 'rb' ) as pickleInputFile: versionDigest = _getDigest( pickleInputFile.read() )
+    with open( filepath, 'ab' ) as pickleOutputFile:
+        pickle.dump( versionDigest, pickleOutputFile, pickle.HIGHEST_PROTOCOL )
+
     # Now create a zipped version of the entire folder
     zipFilename = BibleObject.getAName( abbrevFirst=True )
     if BibleOrgSysGlobals.debugFlag: assert zipFilename
@@ -485,6 +508,8 @@ class PickledBible( Bible ):
 
             NOTE: This refers to the pickle/software/object versions, not the Bible text version.
             """
+            fileData = pickleFileObject.read()
+            pickleFileObject = io.BytesIO( fileData )
             myDict = {}
             myDict['PickledBibleVersion'] = pickle.load( pickleFileObject )
             assert isinstance( myDict['PickledBibleVersion'], str ) # Security check
@@ -509,6 +534,10 @@ class PickledBible( Bible ):
             myDict['bookList'] = pickle.load( pickleFileObject )
             assert isinstance( myDict['bookList'], list ) # Security check
             myDict.update( pickle.load( pickleFileObject ) ) # metadataDict
+            digestedLength = pickleFileObject.tell()
+            if digestedLength < len(fileData) or 'fileDigests' in myDict: # (Not in older pickled Bibles)
+                if pickle.load( pickleFileObject ) != _getDigest( fileData[:digestedLength] ):
+                    raise pickle.UnpicklingError( f"{VERSION_FILENAME} is damaged" )
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "myDict", myDict )
             return myDict
         # end of PickledBible.__init_ loadVersionStuff
@@ -536,6 +565,8 @@ class PickledBible( Bible ):
                     self.pickleVersionData = loadVersionStuff( pickleInputFile )
             else: logging.critical( "PickledBible: "+_("Unable to find {!r}").format( VERSION_FILENAME ) )
 
+        self.fileDigests = self.pickleVersionData.pop( 'fileDigests', None ) # None for older pickled Bibles
+
         dPrint( 'Never', DEBUGGING_THIS_MODULE, "pickleVersionData", self.pickleVersionData )
     # end of PickledBible.__init_
 
@@ -598,6 +629,18 @@ class PickledBible( Bible ):
     # end of PickledBible.__str__
 
 
+    def _checkedFile( self, filename:str, pickleFileObject ):
+        """
+        Returns a file object with the contents of the given (open) pickle file
+            after checking that it's the same file that was saved.
+        """
+        fileData = pickleFileObject.read()
+        if self.fileDigests is not None and self.fileDigests[filename] != _getDigest( fileData ):
+            raise pickle.UnpicklingError( f"{filename} is damaged or doesn't belong to this pickled Bible" )
+        return io.BytesIO( fileData )
+    # end of PickledBible._checkedFile
+
+
     def preload( self ) -> None:
         """
         Loads the BibleInfo file if it can be found.
@@ -612,13 +655,13 @@ class PickledBible( Bible ):
         if self.pickleIsZipped:
             with zipfile.ZipFile( self.pickleFilepath ) as thisZip:
                 with thisZip.open( INFO_FILENAME ) as pickleInputFile:
-                    loadedCount = _loadObjectAttributes( pickleInputFile, self )
+                    loadedCount = _loadObjectAttributes( self._checkedFile( INFO_FILENAME, pickleInputFile ), self )
         else: # it's not zipped
             filepath = os.path.join( self.pickleSourceFolder, INFO_FILENAME )
             if os.path.exists( filepath ):
                 vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading PickledBible info from pickle file {}…").format( filepath ) )
                 with open( filepath, 'rb') as pickleInputFile:
-                    loadedCount = _loadObjectAttributes( pickleInputFile, self )
+                    loadedCount = _loadObjectAttributes( self._checkedFile( INFO_FILENAME, pickleInputFile ), self )
             else: logging.critical( _("PickledBible: unable to find {!r}").format( INFO_FILENAME ) )
 
         if loadedCount:
@@ -662,10 +705,10 @@ class PickledBible( Bible ):
         if self.pickleIsZipped:
             with zipfile.ZipFile( self.pickleFilepath ) as thisZip:
                 with thisZip.open( BOOK_FILENAME.format( BBB ) ) as pickleInputFile:
-                    loadedCount = _loadObjectAttributes( pickleInputFile, bookObject )
+                    loadedCount = _loadObjectAttributes( self._checkedFile( BOOK_FILENAME.format( BBB ), pickleInputFile ), bookObject )
         else: # not zipped
             with open( os.path.join( self.pickleSourceFolder, BOOK_FILENAME.format( BBB ) ), 'rb' ) as pickleInputFile:
-                loadedCount = _loadObjectAttributes( pickleInputFile, bookObject )
+                loadedCount = _loadObjectAttributes( self._checkedFile( BOOK_FILENAME.format( BBB ), pickleInputFile ), bookObject )
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("  Loaded {} {} PickledBible book attributes").format( loadedCount, BBB ) )
 
         self.bookNeedsReloading[BBB] = False
-- 
2.43.0


From 90c54a819eb7af8f9214d7a5407d44c0218ab4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 23/82] fix: reference tables load from whichever of their XML,
 pickle and JSON forms is current

The book orders, book names, versification and punctuation systems are in
folders of XML files, but were compared with a single XML file that doesn't
exist, so an out-of-date pickle was always used, and nothing could be loaded
without the pickle (the versification and punctuation XML loading also called
things that don't exist, and the book orders JSON wasn't read as it was
written). The systems now also come in the same order on every computer.
---
 BibleOrgSys/BibleOrgSysGlobals.py             | 20 +++++++++++++
 BibleOrgSys/Reference/BibleBookOrders.py      | 28 ++++++-------------
 BibleOrgSys/Reference/BibleBooksCodes.py      | 14 ++--------
 BibleOrgSys/Reference/BibleBooksNames.py      | 22 ++++-----------
 .../Reference/BibleOrganisationalSystems.py   | 10 +------
 .../Reference/BiblePunctuationSystems.py      | 21 +++-----------
 .../Reference/BibleVersificationSystems.py    | 27 ++++++------------
 .../Converters/BibleBookOrdersConverter.py    |  2 +-
 .../Converters/BibleBooksNamesConverter.py    |  2 +-
 .../BiblePunctuationSystemsConverter.py       |  2 +-
 .../BibleVersificationSystemsConverter.py     |  2 +-
 BibleOrgSys/Reference/ISO_639_3_Languages.py  | 10 +------
 BibleOrgSys/Reference/USFM2Markers.py         | 10 +------
 BibleOrgSys/Reference/USFM3Markers.py         | 10 +------
 14 files changed, 57 insertions(+), 123 deletions(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index fe8b096..889ad32 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1527,6 +1527,26 @@ USFMCharacterMarkers:list[str] = []
 USFMAllExpandedCharacterMarkers:list[str] = []
 internal_SFMs_to_remove:list[str] = []
 
+def isDerivedFileCurrent( derivedFilepath:Path, originalPath:Path ) -> bool:
+    """
+    Checks if a derived data file (e.g., a pickle or JSON file) exists
+        and is newer than the original XML file, or than every XML file in the original folder.
+
+    Note that the XML files aren't included in the PyPI package, so there might not be any to compare it with.
+    """
+    try: derivedStat = os.stat( derivedFilepath )
+    except FileNotFoundError: return False
+    originalPath = Path( originalPath )
+    originalFilepaths = [filepath for filepath in originalPath.iterdir() if filepath.suffix.upper()=='.XML'] if originalPath.is_dir() \
+                    else [originalPath] if originalPath.exists() else []
+    for originalFilepath in originalFilepaths:
+        originalStat = os.stat( originalFilepath )
+        if derivedStat.st_mtime <= originalStat.st_mtime or derivedStat.st_ctime <= originalStat.st_ctime:
+            return False
+    return True
+# end of BibleOrgSysGlobals.isDerivedFileCurrent
+
+
 def preloadCommonData() -> None:
     """
     Preload common data structures (used by many modules)
diff --git a/BibleOrgSys/Reference/BibleBookOrders.py b/BibleOrgSys/Reference/BibleBookOrders.py
index f7839b1..3c3f974 100755
--- a/BibleOrgSys/Reference/BibleBookOrders.py
+++ b/BibleOrgSys/Reference/BibleBookOrders.py
@@ -74,17 +74,9 @@ class BibleBookOrderSystems:
         if not self.__DataDicts or not self.__DataLists: # Don't do this unnecessarily
             if XMLFolder is None:
                 # See if we can load from the pickle file (faster than loading from the XML)
-                standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BibleBookOrders.xml' )
+                standardXMLFolderpath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BookOrders/' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBookOrders_Tables.pickle' )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFolderpath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading pickle file {standardPickleFilepath}…" )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
@@ -94,17 +86,15 @@ class BibleBookOrderSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBookOrders pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBookOrders_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardJsonFilepath, standardXMLFolderpath ):
                     import json
-                    vPrint( 'Info', DEBUGGING_THIS_MODULE, f"NOT TESTED -- CODE MAY NEED ADJUSTING -- Loading json file {standardJsonFilepath}…" )
+                    vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
-                        self.__DataDicts = json.load( JsonFile )
-                        self.__DataLists = json.load( JsonFile )
-                    # # NOTE: We have to convert str referenceNumber keys back to ints
-                    # self.__DataDicts['referenceNumberDict'] = { int(key):value \
-                    #             for key,value in self.__DataDicts['referenceNumberDict'].items() }
+                        jsonData = json.load( JsonFile )
+                    # NOTE: We have to convert str ID keys back to ints and lists back to tuples
+                    self.__DataDicts = { systemName:( bookDataDict, {int(ID):BBB for ID,BBB in idDataDict.items()}, ) \
+                                for systemName,(bookDataDict,idDataDict) in jsonData.items() }
+                    self.__DataLists = { systemName:list(bookDataDict) for systemName,(bookDataDict,_idDataDict) in jsonData.items() }
                     return self # So this command can be chained after the object creation
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBookOrders JSON file can't be loaded!" )
diff --git a/BibleOrgSys/Reference/BibleBooksCodes.py b/BibleOrgSys/Reference/BibleBooksCodes.py
index fc14f86..469ff23 100755
--- a/BibleOrgSys/Reference/BibleBooksCodes.py
+++ b/BibleOrgSys/Reference/BibleBooksCodes.py
@@ -107,15 +107,7 @@ class BibleBooksCodes:
                 # See if we can load from the pickle file (faster than loading from the XML)
                 standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksCodes.xml' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksCodes_Tables.pickle' )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFileOrFilepath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading pickle file {standardPickleFilepath}…" )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
@@ -124,9 +116,7 @@ class BibleBooksCodes:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBooksCodes pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksCodes_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardJsonFilepath, standardXMLFileOrFilepath ): # There's a newer JSON file
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
diff --git a/BibleOrgSys/Reference/BibleBooksNames.py b/BibleOrgSys/Reference/BibleBooksNames.py
index 498ab7d..e56acd1 100755
--- a/BibleOrgSys/Reference/BibleBooksNames.py
+++ b/BibleOrgSys/Reference/BibleBooksNames.py
@@ -226,17 +226,9 @@ class BibleBooksNamesSystems:
         if not self.__DataDicts: # Don't do this unnecessarily
             if XMLFolder is None:
                 # See if we can load from the pickle file (faster than loading from the XML)
-                standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksNames.xml' )
+                standardXMLFolderpath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BookNames/' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksNames_Tables.pickle' )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFolderpath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading pickle file {standardPickleFilepath}…" )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
@@ -246,17 +238,13 @@ class BibleBooksNamesSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBooksNames pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleBooksNames_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardJsonFilepath, standardXMLFolderpath ):
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
-                        self.__DataDicts = json.load( JsonFile )
+                        # NOTE: We have to convert lists back to tuples
+                        self.__DataDicts = { systemName:tuple(systemDicts) for systemName,systemDicts in json.load( JsonFile ).items() }
                         # self.__ExpandedDicts = json.load( JsonFile )
-                    # # NOTE: We have to convert str referenceNumber keys back to ints
-                    # self.__DataDict['referenceNumberDict'] = { int(key):value \
-                    #             for key,value in self.__DataDict['referenceNumberDict'].items() }
                     return self # So this command can be chained after the object creation
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleBooksNames JSON file can't be loaded!" )
diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index bade387..815203c 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -108,15 +108,7 @@ class BibleOrganisationalSystems:
                 # See if we can load from the pickle file (faster than loading from the XML)
                 standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( "BibleOrganisationalSystems.xml" )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( "BibleOrganisationalSystems_Tables.pickle" )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFileOrFilepath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading pickle file {}…").format( standardPickleFilepath ) )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
diff --git a/BibleOrgSys/Reference/BiblePunctuationSystems.py b/BibleOrgSys/Reference/BiblePunctuationSystems.py
index 4133cf7..e1af655 100755
--- a/BibleOrgSys/Reference/BiblePunctuationSystems.py
+++ b/BibleOrgSys/Reference/BiblePunctuationSystems.py
@@ -70,17 +70,9 @@ class BiblePunctuationSystems:
         if not self.__DataDict: # Don't do this unnecessarily
             if XMLFolder is None:
                 # See if we can load from the pickle file (faster than loading from the XML)
-                standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BiblePunctuationSystems.xml' )
+                standardXMLFolderpath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'PunctuationSystems/' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BiblePunctuationSystems_Tables.pickle' )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFolderpath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading pickle file {standardPickleFilepath}…" )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
@@ -89,16 +81,11 @@ class BiblePunctuationSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BiblePunctuationSystems pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BiblePunctuationSystems_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardJsonFilepath, standardXMLFolderpath ):
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
                         self.__DataDict = json.load( JsonFile )
-                    # # NOTE: We have to convert str referenceNumber keys back to ints
-                    # self.__DataDict['referenceNumberDict'] = { int(key):value \
-                    #             for key,value in self.__DataDict['referenceNumberDict'].items() }
                     return self # So this command can be chained after the object creation
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BiblePunctuationSystems JSON file can't be loaded!" )
@@ -107,7 +94,7 @@ class BiblePunctuationSystems:
             if XMLFolder is not None:
                 logging.warning( _("Bible Punctuation systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
             bvsc = BiblePunctuationSystemsConverter()
-            bvsc.loadAndValidate( standardXMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
diff --git a/BibleOrgSys/Reference/BibleVersificationSystems.py b/BibleOrgSys/Reference/BibleVersificationSystems.py
index 6a7c289..8c61135 100755
--- a/BibleOrgSys/Reference/BibleVersificationSystems.py
+++ b/BibleOrgSys/Reference/BibleVersificationSystems.py
@@ -118,17 +118,9 @@ class BibleVersificationSystems:
         if not self.__DataDict: # Don't do this unnecessarily
             if XMLFolder is None:
                 # See if we can load from the pickle file (faster than loading from the XML)
-                standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BibleVersificationSystems.xml' )
+                standardXMLFolderpath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'VersificationSystems/' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleVersificationSystems_Tables.pickle' )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # if os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFolderpath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading pickle file {standardPickleFilepath}…" )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
@@ -137,16 +129,15 @@ class BibleVersificationSystems:
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleVersificationSystems pickle file can't be loaded!" )
                 standardJsonFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( 'BibleVersificationSystems_Tables.json' )
-                if os.access( standardJsonFilepath, os.R_OK ) \
-                and os.stat(standardJsonFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                and os.stat(standardJsonFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardJsonFilepath, standardXMLFolderpath ):
                     import json
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, f"Loading json file {standardJsonFilepath}…" )
                     with open( standardJsonFilepath, 'rb') as JsonFile:
                         self.__DataDict = json.load( JsonFile )
-                    # # NOTE: We have to convert str referenceNumber keys back to ints
-                    # self.__DataDict['referenceNumberDict'] = { int(key):value \
-                    #             for key,value in self.__DataDict['referenceNumberDict'].items() }
+                    # NOTE: We have to convert lists back to (C,V) tuples
+                    for systemDict in self.__DataDict.values():
+                        for fieldName in ( 'omitted', 'combined', 'reordered' ):
+                            systemDict[fieldName] = { BBB:[tuple(entry) for entry in entries] for BBB,entries in systemDict[fieldName].items() }
                     return self # So this command can be chained after the object creation
                 elif DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleVersificationSystems JSON file can't be loaded!" )
@@ -154,8 +145,8 @@ class BibleVersificationSystems:
             from BibleOrgSys.Reference.Converters.BibleVersificationSystemsConverter import BibleVersificationSystemsConverter
             if XMLFolder is not None:
                 logging.warning( _("Bible versification systems are already loaded -- your given filepath of {!r} was ignored").format(XMLFolder) )
-            bvsc = BibleVersificationSystemsConverter( XMLFolder )
-            bvsc.loadAndValidate( XMLFileOrFilepath ) # Load the XML (if not done already)
+            bvsc = BibleVersificationSystemsConverter()
+            bvsc.loadSystems( XMLFolder ) # Load the XML (if not done already)
             self.__DataDict = bvsc.importDataToPython() # Get the various dictionaries organised for quick lookup
         return self # So this command can be chained after the object creation
         #     # See if we can load from the pickle file (faster than loading from the XML)
diff --git a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
index 5c0e4ca..5ffbd74 100755
--- a/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBookOrdersConverter.py
@@ -93,7 +93,7 @@ class BibleBookOrdersConverter:
             self.__XMLFolder = XMLFolder
             vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading book order systems from {}…").format( self.__XMLFolder ) )
             filenamePrefix = "BIBLEBOOKORDER_"
-            for filename in os.listdir( self.__XMLFolder ):
+            for filename in sorted( os.listdir( self.__XMLFolder ) ):
                 filepart, extension = os.path.splitext( filename )
                 if extension.upper() == '.XML' and filepart.upper().startswith(filenamePrefix):
                     bookOrderSystemCode = filepart[len(filenamePrefix):]
diff --git a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
index 879dac4..e67c967 100755
--- a/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleBooksNamesConverter.py
@@ -91,7 +91,7 @@ class BibleBooksNamesConverter:
             if folder is None: folder = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'BookNames/' ) # Relative to module, not cwd
             self.__XMLFolder = folder
             vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading book names systems from {}…").format( folder ) )
-            for filename in os.listdir( folder ):
+            for filename in sorted( os.listdir( folder ) ):
                 filepart, extension = os.path.splitext( filename )
                 if extension.upper() == '.XML' and filepart.upper().startswith(self.__filenameBase.upper()+"_"):
                     booksNamesSystemCode = filepart[len(self.__filenameBase)+1:]
diff --git a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
index 2d633c9..7a23f2f 100755
--- a/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BiblePunctuationSystemsConverter.py
@@ -96,7 +96,7 @@ class BiblePunctuationSystemsConverter:
             self.__XMLFolder = XMLFolder
             vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading punctuations systems from {}…").format( self.__XMLFolder ) )
             filenamePrefix = "BIBLEPUNCTUATIONSYSTEM_"
-            for filename in os.listdir( self.__XMLFolder ):
+            for filename in sorted( os.listdir( self.__XMLFolder ) ):
                 filepart, extension = os.path.splitext( filename )
 
                 if extension.upper() == '.XML' and filepart.upper().startswith(filenamePrefix):
diff --git a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
index 6b94d45..e2b95ec 100755
--- a/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
+++ b/BibleOrgSys/Reference/Converters/BibleVersificationSystemsConverter.py
@@ -95,7 +95,7 @@ class BibleVersificationSystemsConverter:
             self.__XMLFolder = XMLFolder
             vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading versification systems from {}…").format( XMLFolder ) )
             filenamePrefix = "BIBLEVERSIFICATIONSYSTEM_"
-            for filename in os.listdir( XMLFolder ):
+            for filename in sorted( os.listdir( XMLFolder ) ):
                 filepart, extension = os.path.splitext( filename )
                 if extension.upper() == '.XML' and filepart.upper().startswith(filenamePrefix):
                     versificationSystemCode = filepart[len(filenamePrefix):]
diff --git a/BibleOrgSys/Reference/ISO_639_3_Languages.py b/BibleOrgSys/Reference/ISO_639_3_Languages.py
index 0798a57..eb568ca 100755
--- a/BibleOrgSys/Reference/ISO_639_3_Languages.py
+++ b/BibleOrgSys/Reference/ISO_639_3_Languages.py
@@ -87,15 +87,7 @@ class ISO_639_3_Languages:
                 # See if we can load from the pickle file (faster than loading from the XML)
                 standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( "iso_639_3.xml" )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( "iso_639_3_Languages_Tables.pickle" )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # and os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFileOrFilepath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading pickle file {}…").format( standardPickleFilepath ) )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
diff --git a/BibleOrgSys/Reference/USFM2Markers.py b/BibleOrgSys/Reference/USFM2Markers.py
index 09eefc0..a654a37 100755
--- a/BibleOrgSys/Reference/USFM2Markers.py
+++ b/BibleOrgSys/Reference/USFM2Markers.py
@@ -303,15 +303,7 @@ class USFM2Markers:
                 # See if we can load from the pickle file (faster than loading from the XML)
                 standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( "USFM2Markers.xml" )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( "USFM2Markers_Tables.pickle" )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # and os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFileOrFilepath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading pickle file {}…").format( standardPickleFilepath ) )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
diff --git a/BibleOrgSys/Reference/USFM3Markers.py b/BibleOrgSys/Reference/USFM3Markers.py
index 2f0a2c5..6bb0e0e 100755
--- a/BibleOrgSys/Reference/USFM3Markers.py
+++ b/BibleOrgSys/Reference/USFM3Markers.py
@@ -301,15 +301,7 @@ class USFM3Markers:
                 # See if we can load from the pickle file (faster than loading from the XML)
                 standardXMLFileOrFilepath = BibleOrgSysGlobals.BOS_DATAFILES_FOLDERPATH.joinpath( 'USFM3Markers.xml' )
                 standardPickleFilepath = BibleOrgSysGlobals.BOS_DERIVED_DATAFILES_FOLDERPATH.joinpath( "USFM3Markers_Tables.pickle" )
-                try:
-                    pickleIsNewer = os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                                and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime
-                except FileNotFoundError as e:
-                    pickleIsNewer = 'xml' in str(e) # Couldn't find xml file -- these aren't included in PyPI package
-                # and os.access( standardPickleFilepath, os.R_OK ) \
-                # and os.stat(standardPickleFilepath).st_mtime > os.stat(standardXMLFileOrFilepath).st_mtime \
-                # and os.stat(standardPickleFilepath).st_ctime > os.stat(standardXMLFileOrFilepath).st_ctime: # There's a newer pickle file
-                if pickleIsNewer:
+                if BibleOrgSysGlobals.isDerivedFileCurrent( standardPickleFilepath, standardXMLFileOrFilepath ):
                     import pickle
                     vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading pickle file {}…").format( standardPickleFilepath ) )
                     with open( standardPickleFilepath, 'rb') as pickleFile:
-- 
2.43.0


From 4814799218925c2c5d4666c4670a9e44e750be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 24/82] fix: preloadCommonData doesn't duplicate the lists of
 markers if it's called again

---
 BibleOrgSys/BibleOrgSysGlobals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleOrgSysGlobals.py b/BibleOrgSys/BibleOrgSysGlobals.py
index 889ad32..43dc080 100755
--- a/BibleOrgSys/BibleOrgSysGlobals.py
+++ b/BibleOrgSys/BibleOrgSysGlobals.py
@@ -1562,16 +1562,16 @@ def preloadCommonData() -> None:
     from BibleOrgSys.Reference.USFM3Markers import USFM3Markers
     loadedUSFMMarkers = USFM3Markers().loadData() # This is a class 'BibleOrgSys.Reference.USFM3Markers.USFM3Markers'
     assert len(loadedUSFMMarkers) >= 220
-    USFMParagraphMarkers += loadedUSFMMarkers.getNewlineMarkersList( 'CanonicalText' )
+    USFMParagraphMarkers[:] = loadedUSFMMarkers.getNewlineMarkersList( 'CanonicalText' )
     USFMParagraphMarkers.remove( 'qa' ) # This is actually a heading marker
     USFMParagraphMarkers.remove( 'qc' ) # Treat this like a heading marker also
     assert len(USFMParagraphMarkers) >= 32
-    USFMCharacterMarkers += loadedUSFMMarkers.getCharacterMarkersList()
+    USFMCharacterMarkers[:] = loadedUSFMMarkers.getCharacterMarkersList()
     assert 'qac' in USFMCharacterMarkers
     assert len(USFMCharacterMarkers) >= 42
-    USFMAllExpandedCharacterMarkers += loadedUSFMMarkers.getCharacterMarkersList( expandNumberableMarkers=True )
+    USFMAllExpandedCharacterMarkers[:] = loadedUSFMMarkers.getCharacterMarkersList( expandNumberableMarkers=True )
     assert len(USFMAllExpandedCharacterMarkers) >= 66
-    internal_SFMs_to_remove += loadedUSFMMarkers.getCharacterMarkersList( includeBackslash=True, includeNestedMarkers=True, includeEndMarkers=True )
+    internal_SFMs_to_remove[:] = loadedUSFMMarkers.getCharacterMarkersList( includeBackslash=True, includeNestedMarkers=True, includeEndMarkers=True )
     assert len(internal_SFMs_to_remove) >= 160
     internal_SFMs_to_remove.sort( key=len, reverse=True ) # List longest first
 # end of BibleOrgSysGlobals.preloadCommonData
-- 
2.43.0


From 6bbb3c7c72b487eced21522c261457cae835e83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 25/82] fix: regenerate the out-of-date derived tables of the
 Bible books codes and USFM3 markers

They lacked e.g. the short and Logos abbreviations and some books, so the answers
depended on whether the pickle, the JSON or the XML happened to be the newest.
(The other tables only have their systems in a new order.)
---
 .../DerivedFiles/BibleBookOrders_Tables.json  |  3108 +-
 .../BibleBookOrders_Tables.pickle             |   Bin 21596 -> 21572 bytes
 .../DerivedFiles/BibleBooksCodes_Tables.json  | 10663 ++-
 .../BibleBooksCodes_Tables.pickle             |   Bin 85579 -> 112321 bytes
 .../DerivedFiles/BibleBooksNames_Tables.json  | 14436 ++--
 .../BibleBooksNames_Tables.pickle             |   Bin 107120 -> 107108 bytes
 .../BiblePunctuationSystems_Tables.json       |    58 +-
 .../BiblePunctuationSystems_Tables.pickle     |   Bin 2059 -> 2059 bytes
 .../BibleVersificationSystems_Tables.json     | 59316 ++++++++--------
 .../BibleVersificationSystems_Tables.pickle   |   Bin 392110 -> 392122 bytes
 .../DerivedFiles/USFM3Markers_Tables.json     |   543 +-
 .../DerivedFiles/USFM3Markers_Tables.pickle   |   Bin 35808 -> 42556 bytes
 12 files changed, 46614 insertions(+), 41510 deletions(-)

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.json
index edf343a..f72ba53 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.json
@@ -1,551 +1,451 @@
 {
-  "SyriacNewTestament": [
+  "ALL": [
     {
-      "MAT": 1,
-      "MRK": 2,
-      "LUK": 3,
-      "JHN": 4,
-      "ACT": 5,
-      "JAM": 6,
-      "PE1": 7,
-      "JN1": 8,
-      "ROM": 9,
-      "CO1": 10,
-      "CO2": 11,
-      "GAL": 12,
-      "EPH": 13,
-      "PHP": 14,
-      "COL": 15,
-      "TH1": 16,
-      "TH2": 17,
-      "TI1": 18,
-      "TI2": 19,
-      "TIT": 20,
-      "PHM": 21,
-      "HEB": 22,
-      "PE2": 23,
-      "JN2": 24,
-      "JN3": 25,
-      "JDE": 26,
-      "REV": 27
+      "PRF": 1,
+      "ACK": 2,
+      "INT": 3,
+      "FRT": 4,
+      "TOC": 5,
+      "MOS": 6,
+      "GEN": 7,
+      "EXO": 8,
+      "LEV": 9,
+      "NUM": 10,
+      "DEU": 11,
+      "JOS": 12,
+      "JDG": 13,
+      "RUT": 14,
+      "SAM": 15,
+      "SA1": 16,
+      "SA2": 17,
+      "KGS": 18,
+      "KI1": 19,
+      "KI2": 20,
+      "CHR": 21,
+      "CH1": 22,
+      "CH2": 23,
+      "EZR": 24,
+      "EZN": 25,
+      "NEH": 26,
+      "EST": 27,
+      "ESA": 28,
+      "ESC": 29,
+      "JOB": 30,
+      "PSA": 31,
+      "PB1": 32,
+      "PB2": 33,
+      "PB3": 34,
+      "PB4": 35,
+      "PB5": 36,
+      "PSB": 37,
+      "PS2": 38,
+      "PS3": 39,
+      "PSS": 40,
+      "PRO": 41,
+      "ECC": 42,
+      "SNG": 43,
+      "ISA": 44,
+      "JER": 45,
+      "LAM": 46,
+      "EZE": 47,
+      "DAN": 48,
+      "DNG": 49,
+      "DNA": 50,
+      "DNC": 51,
+      "P12": 52,
+      "HOS": 53,
+      "JOL": 54,
+      "AMO": 55,
+      "OBA": 56,
+      "JNA": 57,
+      "MIC": 58,
+      "NAH": 59,
+      "HAB": 60,
+      "ZEP": 61,
+      "HAG": 62,
+      "ZEC": 63,
+      "MAL": 64,
+      "TOB": 65,
+      "JDT": 66,
+      "ESG": 67,
+      "WIS": 68,
+      "SIR": 69,
+      "BAR": 70,
+      "LJB": 71,
+      "LBA": 72,
+      "LB2": 73,
+      "BA2": 74,
+      "BA3": 75,
+      "BA4": 76,
+      "LJE": 77,
+      "PAZ": 78,
+      "SUS": 79,
+      "BEL": 80,
+      "MAC": 81,
+      "MA1": 82,
+      "MA2": 83,
+      "MA3": 84,
+      "MA4": 85,
+      "MA5": 86,
+      "GES": 87,
+      "LES": 88,
+      "EZA": 89,
+      "EZ5": 90,
+      "EZ6": 91,
+      "MAN": 92,
+      "ODE": 93,
+      "PSO": 94,
+      "PJE": 95,
+      "WSI": 96,
+      "TTP": 97,
+      "JUB": 98,
+      "ENO": 99,
+      "EN2": 100,
+      "REP": 101,
+      "CL1": 102,
+      "CL2": 103,
+      "SHE": 104,
+      "DID": 105,
+      "MAT": 106,
+      "MRK": 107,
+      "LUK": 108,
+      "JHN": 109,
+      "LKA": 110,
+      "ACT": 111,
+      "ROM": 112,
+      "CO1": 113,
+      "CO2": 114,
+      "GAL": 115,
+      "EPH": 116,
+      "PHP": 117,
+      "COL": 118,
+      "TH1": 119,
+      "TH2": 120,
+      "TI1": 121,
+      "TI2": 122,
+      "TIT": 123,
+      "PHM": 124,
+      "HEB": 125,
+      "JAM": 126,
+      "PE1": 127,
+      "PE2": 128,
+      "JN1": 129,
+      "JN2": 130,
+      "JN3": 131,
+      "JDE": 132,
+      "REV": 133,
+      "LAO": 134,
+      "COP": 135,
+      "CO3": 136,
+      "EUT": 137,
+      "DOJ": 138,
+      "LBB": 139,
+      "MQ1": 140,
+      "MQ2": 141,
+      "MQ3": 142,
+      "TAD": 143,
+      "LAE": 144,
+      "ASS": 145,
+      "TSO": 146,
+      "TJB": 147,
+      "MAI": 148,
+      "AEZ": 149,
+      "EZT": 150,
+      "EUP": 151,
+      "PEU": 152,
+      "VAM": 153,
+      "LAR": 154,
+      "ARI": 155,
+      "ABL": 156,
+      "ART": 157,
+      "CLM": 158,
+      "ELM": 159,
+      "HRE": 160,
+      "LPR": 161,
+      "EPL": 162,
+      "TEO": 163,
+      "RVE": 164,
+      "GHE": 165,
+      "GTR": 166,
+      "GMA": 167,
+      "GMC": 168,
+      "GTW": 169,
+      "GPH": 170,
+      "GTH": 171,
+      "GJU": 172,
+      "GBA": 173,
+      "AJA": 174,
+      "WJC": 175,
+      "GLS": 176,
+      "CNC": 177,
+      "TPC": 178,
+      "IXN": 179,
+      "IXP": 180,
+      "IXT": 181,
+      "BAK": 182,
+      "MAP": 183,
+      "XXA": 184,
+      "XXB": 185,
+      "XXC": 186,
+      "XXD": 187,
+      "XXE": 188,
+      "XXF": 189,
+      "XXG": 190
     },
     {
-      "1": "MAT",
-      "2": "MRK",
-      "3": "LUK",
-      "4": "JHN",
-      "5": "ACT",
-      "6": "JAM",
-      "7": "PE1",
-      "8": "JN1",
-      "9": "ROM",
-      "10": "CO1",
-      "11": "CO2",
-      "12": "GAL",
-      "13": "EPH",
-      "14": "PHP",
-      "15": "COL",
-      "16": "TH1",
-      "17": "TH2",
-      "18": "TI1",
-      "19": "TI2",
-      "20": "TIT",
-      "21": "PHM",
-      "22": "HEB",
-      "23": "PE2",
-      "24": "JN2",
-      "25": "JN3",
-      "26": "JDE",
-      "27": "REV"
-    }
-  ],
-  "LutheranBible": [
-    {
-      "GEN": 1,
-      "EXO": 2,
-      "LEV": 3,
-      "NUM": 4,
-      "DEU": 5,
-      "JOS": 6,
-      "JDG": 7,
-      "RUT": 8,
-      "SA1": 9,
-      "SA2": 10,
-      "KI1": 11,
-      "KI2": 12,
-      "CH1": 13,
-      "CH2": 14,
-      "EZR": 15,
-      "NEH": 16,
-      "EST": 17,
-      "JOB": 18,
-      "PSA": 19,
-      "PRO": 20,
-      "ECC": 21,
-      "SNG": 22,
-      "ISA": 23,
-      "JER": 24,
-      "LAM": 25,
-      "EZE": 26,
-      "DAN": 27,
-      "HOS": 28,
-      "JOL": 29,
-      "AMO": 30,
-      "OBA": 31,
-      "JNA": 32,
-      "MIC": 33,
-      "NAH": 34,
-      "HAB": 35,
-      "ZEP": 36,
-      "HAG": 37,
-      "ZEC": 38,
-      "MAL": 39,
-      "JDT": 40,
-      "WIS": 41,
-      "TOB": 42,
-      "SIR": 43,
-      "BAR": 44,
-      "MA1": 45,
-      "MA2": 46,
-      "ESA": 47,
-      "DNA": 48,
-      "MAN": 49,
-      "MAT": 50,
-      "MRK": 51,
-      "LUK": 52,
-      "JHN": 53,
-      "ACT": 54,
-      "ROM": 55,
-      "CO1": 56,
-      "CO2": 57,
-      "GAL": 58,
-      "EPH": 59,
-      "PHP": 60,
-      "COL": 61,
-      "TH1": 62,
-      "TH2": 63,
-      "TI1": 64,
-      "TI2": 65,
-      "TIT": 66,
-      "PHM": 67,
-      "PE1": 68,
-      "PE2": 69,
-      "JN1": 70,
-      "JN2": 71,
-      "JN3": 72,
-      "HEB": 73,
-      "JAM": 74,
-      "JDE": 75,
-      "REV": 76
-    },
-    {
-      "1": "GEN",
-      "2": "EXO",
-      "3": "LEV",
-      "4": "NUM",
-      "5": "DEU",
-      "6": "JOS",
-      "7": "JDG",
-      "8": "RUT",
-      "9": "SA1",
-      "10": "SA2",
-      "11": "KI1",
-      "12": "KI2",
-      "13": "CH1",
-      "14": "CH2",
-      "15": "EZR",
-      "16": "NEH",
-      "17": "EST",
-      "18": "JOB",
-      "19": "PSA",
-      "20": "PRO",
-      "21": "ECC",
-      "22": "SNG",
-      "23": "ISA",
-      "24": "JER",
-      "25": "LAM",
-      "26": "EZE",
-      "27": "DAN",
-      "28": "HOS",
-      "29": "JOL",
-      "30": "AMO",
-      "31": "OBA",
-      "32": "JNA",
-      "33": "MIC",
-      "34": "NAH",
-      "35": "HAB",
-      "36": "ZEP",
-      "37": "HAG",
-      "38": "ZEC",
-      "39": "MAL",
-      "40": "JDT",
-      "41": "WIS",
-      "42": "TOB",
-      "43": "SIR",
-      "44": "BAR",
-      "45": "MA1",
-      "46": "MA2",
-      "47": "ESA",
-      "48": "DNA",
-      "49": "MAN",
-      "50": "MAT",
-      "51": "MRK",
-      "52": "LUK",
-      "53": "JHN",
-      "54": "ACT",
-      "55": "ROM",
-      "56": "CO1",
-      "57": "CO2",
-      "58": "GAL",
-      "59": "EPH",
-      "60": "PHP",
-      "61": "COL",
-      "62": "TH1",
-      "63": "TH2",
-      "64": "TI1",
-      "65": "TI2",
-      "66": "TIT",
-      "67": "PHM",
-      "68": "PE1",
-      "69": "PE2",
-      "70": "JN1",
-      "71": "JN2",
-      "72": "JN3",
-      "73": "HEB",
-      "74": "JAM",
-      "75": "JDE",
-      "76": "REV"
-    }
-  ],
-  "VulgateBible": [
-    {
-      "GEN": 1,
-      "EXO": 2,
-      "LEV": 3,
-      "NUM": 4,
-      "DEU": 5,
-      "JOS": 6,
-      "JDG": 7,
-      "RUT": 8,
-      "SA1": 9,
-      "SA2": 10,
-      "KI1": 11,
-      "KI2": 12,
-      "CH1": 13,
-      "CH2": 14,
-      "EZR": 15,
-      "NEH": 16,
-      "TOB": 17,
-      "JDT": 18,
-      "EST": 19,
-      "JOB": 20,
-      "PSA": 21,
-      "PRO": 22,
-      "ECC": 23,
-      "SNG": 24,
-      "WIS": 25,
-      "SIR": 26,
-      "ISA": 27,
-      "JER": 28,
-      "LAM": 29,
-      "BAR": 30,
-      "EZE": 31,
-      "DAN": 32,
-      "HOS": 33,
-      "JOL": 34,
-      "AMO": 35,
-      "OBA": 36,
-      "JNA": 37,
-      "MIC": 38,
-      "NAH": 39,
-      "HAB": 40,
-      "ZEP": 41,
-      "HAG": 42,
-      "ZEC": 43,
-      "MAL": 44,
-      "MA1": 45,
-      "MA2": 46,
-      "MAT": 47,
-      "MRK": 48,
-      "LUK": 49,
-      "JHN": 50,
-      "ACT": 51,
-      "ROM": 52,
-      "CO1": 53,
-      "CO2": 54,
-      "GAL": 55,
-      "EPH": 56,
-      "PHP": 57,
-      "COL": 58,
-      "TH1": 59,
-      "TH2": 60,
-      "TI1": 61,
-      "TI2": 62,
-      "TIT": 63,
-      "PHM": 64,
-      "HEB": 65,
-      "JAM": 66,
-      "PE1": 67,
-      "PE2": 68,
-      "JN1": 69,
-      "JN2": 70,
-      "JN3": 71,
-      "JDE": 72,
-      "REV": 73,
-      "MAN": 74,
-      "GES": 75,
-      "LES": 76,
-      "PSS": 77,
-      "LAO": 78
-    },
-    {
-      "1": "GEN",
-      "2": "EXO",
-      "3": "LEV",
-      "4": "NUM",
-      "5": "DEU",
-      "6": "JOS",
-      "7": "JDG",
-      "8": "RUT",
-      "9": "SA1",
-      "10": "SA2",
-      "11": "KI1",
-      "12": "KI2",
-      "13": "CH1",
-      "14": "CH2",
-      "15": "EZR",
-      "16": "NEH",
-      "17": "TOB",
-      "18": "JDT",
-      "19": "EST",
-      "20": "JOB",
-      "21": "PSA",
-      "22": "PRO",
-      "23": "ECC",
-      "24": "SNG",
-      "25": "WIS",
-      "26": "SIR",
-      "27": "ISA",
-      "28": "JER",
-      "29": "LAM",
-      "30": "BAR",
-      "31": "EZE",
-      "32": "DAN",
-      "33": "HOS",
-      "34": "JOL",
-      "35": "AMO",
-      "36": "OBA",
-      "37": "JNA",
-      "38": "MIC",
-      "39": "NAH",
-      "40": "HAB",
-      "41": "ZEP",
-      "42": "HAG",
-      "43": "ZEC",
-      "44": "MAL",
-      "45": "MA1",
-      "46": "MA2",
-      "47": "MAT",
-      "48": "MRK",
-      "49": "LUK",
-      "50": "JHN",
-      "51": "ACT",
-      "52": "ROM",
-      "53": "CO1",
-      "54": "CO2",
-      "55": "GAL",
-      "56": "EPH",
-      "57": "PHP",
-      "58": "COL",
-      "59": "TH1",
-      "60": "TH2",
-      "61": "TI1",
-      "62": "TI2",
-      "63": "TIT",
-      "64": "PHM",
-      "65": "HEB",
-      "66": "JAM",
-      "67": "PE1",
-      "68": "PE2",
-      "69": "JN1",
-      "70": "JN2",
-      "71": "JN3",
-      "72": "JDE",
-      "73": "REV",
-      "74": "MAN",
-      "75": "GES",
-      "76": "LES",
-      "77": "PSS",
-      "78": "LAO"
-    }
-  ],
-  "KJVwithApocrypha": [
-    {
-      "GEN": 1,
-      "EXO": 2,
-      "LEV": 3,
-      "NUM": 4,
-      "DEU": 5,
-      "JOS": 6,
-      "JDG": 7,
-      "RUT": 8,
-      "SA1": 9,
-      "SA2": 10,
-      "KI1": 11,
-      "KI2": 12,
-      "CH1": 13,
-      "CH2": 14,
-      "EZR": 15,
-      "NEH": 16,
-      "EST": 17,
-      "JOB": 18,
-      "PSA": 19,
-      "PRO": 20,
-      "ECC": 21,
-      "SNG": 22,
-      "ISA": 23,
-      "JER": 24,
-      "LAM": 25,
-      "EZE": 26,
-      "DAN": 27,
-      "HOS": 28,
-      "JOL": 29,
-      "AMO": 30,
-      "OBA": 31,
-      "JNA": 32,
-      "MIC": 33,
-      "NAH": 34,
-      "HAB": 35,
-      "ZEP": 36,
-      "HAG": 37,
-      "ZEC": 38,
-      "MAL": 39,
-      "GES": 40,
-      "LES": 41,
-      "TOB": 42,
-      "JDT": 43,
-      "ESA": 44,
-      "WIS": 45,
-      "SIR": 46,
-      "BAR": 47,
-      "PAZ": 48,
-      "SUS": 49,
-      "BEL": 50,
-      "MAN": 51,
-      "MA1": 52,
-      "MA2": 53,
-      "MAT": 54,
-      "MRK": 55,
-      "LUK": 56,
-      "JHN": 57,
-      "ACT": 58,
-      "ROM": 59,
-      "CO1": 60,
-      "CO2": 61,
-      "GAL": 62,
-      "EPH": 63,
-      "PHP": 64,
-      "COL": 65,
-      "TH1": 66,
-      "TH2": 67,
-      "TI1": 68,
-      "TI2": 69,
-      "TIT": 70,
-      "PHM": 71,
-      "HEB": 72,
-      "JAM": 73,
-      "PE1": 74,
-      "PE2": 75,
-      "JN1": 76,
-      "JN2": 77,
-      "JN3": 78,
-      "JDE": 79,
-      "REV": 80
+      "1": "PRF",
+      "2": "ACK",
+      "3": "INT",
+      "4": "FRT",
+      "5": "TOC",
+      "6": "MOS",
+      "7": "GEN",
+      "8": "EXO",
+      "9": "LEV",
+      "10": "NUM",
+      "11": "DEU",
+      "12": "JOS",
+      "13": "JDG",
+      "14": "RUT",
+      "15": "SAM",
+      "16": "SA1",
+      "17": "SA2",
+      "18": "KGS",
+      "19": "KI1",
+      "20": "KI2",
+      "21": "CHR",
+      "22": "CH1",
+      "23": "CH2",
+      "24": "EZR",
+      "25": "EZN",
+      "26": "NEH",
+      "27": "EST",
+      "28": "ESA",
+      "29": "ESC",
+      "30": "JOB",
+      "31": "PSA",
+      "32": "PB1",
+      "33": "PB2",
+      "34": "PB3",
+      "35": "PB4",
+      "36": "PB5",
+      "37": "PSB",
+      "38": "PS2",
+      "39": "PS3",
+      "40": "PSS",
+      "41": "PRO",
+      "42": "ECC",
+      "43": "SNG",
+      "44": "ISA",
+      "45": "JER",
+      "46": "LAM",
+      "47": "EZE",
+      "48": "DAN",
+      "49": "DNG",
+      "50": "DNA",
+      "51": "DNC",
+      "52": "P12",
+      "53": "HOS",
+      "54": "JOL",
+      "55": "AMO",
+      "56": "OBA",
+      "57": "JNA",
+      "58": "MIC",
+      "59": "NAH",
+      "60": "HAB",
+      "61": "ZEP",
+      "62": "HAG",
+      "63": "ZEC",
+      "64": "MAL",
+      "65": "TOB",
+      "66": "JDT",
+      "67": "ESG",
+      "68": "WIS",
+      "69": "SIR",
+      "70": "BAR",
+      "71": "LJB",
+      "72": "LBA",
+      "73": "LB2",
+      "74": "BA2",
+      "75": "BA3",
+      "76": "BA4",
+      "77": "LJE",
+      "78": "PAZ",
+      "79": "SUS",
+      "80": "BEL",
+      "81": "MAC",
+      "82": "MA1",
+      "83": "MA2",
+      "84": "MA3",
+      "85": "MA4",
+      "86": "MA5",
+      "87": "GES",
+      "88": "LES",
+      "89": "EZA",
+      "90": "EZ5",
+      "91": "EZ6",
+      "92": "MAN",
+      "93": "ODE",
+      "94": "PSO",
+      "95": "PJE",
+      "96": "WSI",
+      "97": "TTP",
+      "98": "JUB",
+      "99": "ENO",
+      "100": "EN2",
+      "101": "REP",
+      "102": "CL1",
+      "103": "CL2",
+      "104": "SHE",
+      "105": "DID",
+      "106": "MAT",
+      "107": "MRK",
+      "108": "LUK",
+      "109": "JHN",
+      "110": "LKA",
+      "111": "ACT",
+      "112": "ROM",
+      "113": "CO1",
+      "114": "CO2",
+      "115": "GAL",
+      "116": "EPH",
+      "117": "PHP",
+      "118": "COL",
+      "119": "TH1",
+      "120": "TH2",
+      "121": "TI1",
+      "122": "TI2",
+      "123": "TIT",
+      "124": "PHM",
+      "125": "HEB",
+      "126": "JAM",
+      "127": "PE1",
+      "128": "PE2",
+      "129": "JN1",
+      "130": "JN2",
+      "131": "JN3",
+      "132": "JDE",
+      "133": "REV",
+      "134": "LAO",
+      "135": "COP",
+      "136": "CO3",
+      "137": "EUT",
+      "138": "DOJ",
+      "139": "LBB",
+      "140": "MQ1",
+      "141": "MQ2",
+      "142": "MQ3",
+      "143": "TAD",
+      "144": "LAE",
+      "145": "ASS",
+      "146": "TSO",
+      "147": "TJB",
+      "148": "MAI",
+      "149": "AEZ",
+      "150": "EZT",
+      "151": "EUP",
+      "152": "PEU",
+      "153": "VAM",
+      "154": "LAR",
+      "155": "ARI",
+      "156": "ABL",
+      "157": "ART",
+      "158": "CLM",
+      "159": "ELM",
+      "160": "HRE",
+      "161": "LPR",
+      "162": "EPL",
+      "163": "TEO",
+      "164": "RVE",
+      "165": "GHE",
+      "166": "GTR",
+      "167": "GMA",
+      "168": "GMC",
+      "169": "GTW",
+      "170": "GPH",
+      "171": "GTH",
+      "172": "GJU",
+      "173": "GBA",
+      "174": "AJA",
+      "175": "WJC",
+      "176": "GLS",
+      "177": "CNC",
+      "178": "TPC",
+      "179": "IXN",
+      "180": "IXP",
+      "181": "IXT",
+      "182": "BAK",
+      "183": "MAP",
+      "184": "XXA",
+      "185": "XXB",
+      "186": "XXC",
+      "187": "XXD",
+      "188": "XXE",
+      "189": "XXF",
+      "190": "XXG"
+    }
+  ],
+  "ArmenianNewTestament": [
+    {
+      "MAT": 1,
+      "MRK": 2,
+      "LUK": 3,
+      "JHN": 4,
+      "ACT": 5,
+      "JAM": 6,
+      "PE1": 7,
+      "PE2": 8,
+      "JN1": 9,
+      "JN2": 10,
+      "JN3": 11,
+      "JDE": 12,
+      "ROM": 13,
+      "CO1": 14,
+      "CO2": 15,
+      "GAL": 16,
+      "EPH": 17,
+      "PHP": 18,
+      "COL": 19,
+      "TH1": 20,
+      "TH2": 21,
+      "HEB": 22,
+      "TI1": 23,
+      "TI2": 24,
+      "TIT": 25,
+      "PHM": 26,
+      "REV": 27
     },
     {
-      "1": "GEN",
-      "2": "EXO",
-      "3": "LEV",
-      "4": "NUM",
-      "5": "DEU",
-      "6": "JOS",
-      "7": "JDG",
-      "8": "RUT",
-      "9": "SA1",
-      "10": "SA2",
-      "11": "KI1",
-      "12": "KI2",
-      "13": "CH1",
-      "14": "CH2",
-      "15": "EZR",
-      "16": "NEH",
-      "17": "EST",
-      "18": "JOB",
-      "19": "PSA",
-      "20": "PRO",
-      "21": "ECC",
-      "22": "SNG",
-      "23": "ISA",
-      "24": "JER",
-      "25": "LAM",
-      "26": "EZE",
-      "27": "DAN",
-      "28": "HOS",
-      "29": "JOL",
-      "30": "AMO",
-      "31": "OBA",
-      "32": "JNA",
-      "33": "MIC",
-      "34": "NAH",
-      "35": "HAB",
-      "36": "ZEP",
-      "37": "HAG",
-      "38": "ZEC",
-      "39": "MAL",
-      "40": "GES",
-      "41": "LES",
-      "42": "TOB",
-      "43": "JDT",
-      "44": "ESA",
-      "45": "WIS",
-      "46": "SIR",
-      "47": "BAR",
-      "48": "PAZ",
-      "49": "SUS",
-      "50": "BEL",
-      "51": "MAN",
-      "52": "MA1",
-      "53": "MA2",
-      "54": "MAT",
-      "55": "MRK",
-      "56": "LUK",
-      "57": "JHN",
-      "58": "ACT",
-      "59": "ROM",
-      "60": "CO1",
-      "61": "CO2",
-      "62": "GAL",
-      "63": "EPH",
-      "64": "PHP",
-      "65": "COL",
-      "66": "TH1",
-      "67": "TH2",
-      "68": "TI1",
-      "69": "TI2",
-      "70": "TIT",
-      "71": "PHM",
-      "72": "HEB",
-      "73": "JAM",
-      "74": "PE1",
-      "75": "PE2",
-      "76": "JN1",
-      "77": "JN2",
-      "78": "JN3",
-      "79": "JDE",
-      "80": "REV"
+      "1": "MAT",
+      "2": "MRK",
+      "3": "LUK",
+      "4": "JHN",
+      "5": "ACT",
+      "6": "JAM",
+      "7": "PE1",
+      "8": "PE2",
+      "9": "JN1",
+      "10": "JN2",
+      "11": "JN3",
+      "12": "JDE",
+      "13": "ROM",
+      "14": "CO1",
+      "15": "CO2",
+      "16": "GAL",
+      "17": "EPH",
+      "18": "PHP",
+      "19": "COL",
+      "20": "TH1",
+      "21": "TH2",
+      "22": "HEB",
+      "23": "TI1",
+      "24": "TI2",
+      "25": "TIT",
+      "26": "PHM",
+      "27": "REV"
     }
   ],
-  "NRSVwithApocrypha": [
+  "EthiopianProtestantBible": [
     {
       "GEN": 1,
       "EXO": 2,
@@ -575,61 +475,44 @@
       "EZE": 26,
       "DAN": 27,
       "HOS": 28,
-      "JOL": 29,
-      "AMO": 30,
-      "OBA": 31,
-      "JNA": 32,
-      "MIC": 33,
+      "AMO": 29,
+      "MIC": 30,
+      "JOL": 31,
+      "OBA": 32,
+      "JNA": 33,
       "NAH": 34,
       "HAB": 35,
       "ZEP": 36,
       "HAG": 37,
       "ZEC": 38,
       "MAL": 39,
-      "TOB": 40,
-      "JDT": 41,
-      "ESG": 42,
-      "WIS": 43,
-      "SIR": 44,
-      "BAR": 45,
-      "PAZ": 46,
-      "SUS": 47,
-      "BEL": 48,
-      "MA1": 49,
-      "MA2": 50,
-      "GES": 51,
-      "MAN": 52,
-      "PSS": 53,
-      "MA3": 54,
-      "LES": 55,
-      "MA4": 56,
-      "MAT": 57,
-      "MRK": 58,
-      "LUK": 59,
-      "JHN": 60,
-      "ACT": 61,
-      "ROM": 62,
-      "CO1": 63,
-      "CO2": 64,
-      "GAL": 65,
-      "EPH": 66,
-      "PHP": 67,
-      "COL": 68,
-      "TH1": 69,
-      "TH2": 70,
-      "TI1": 71,
-      "TI2": 72,
-      "TIT": 73,
-      "PHM": 74,
-      "HEB": 75,
-      "JAM": 76,
-      "PE1": 77,
-      "PE2": 78,
-      "JN1": 79,
-      "JN2": 80,
-      "JN3": 81,
-      "JDE": 82,
-      "REV": 83
+      "MAT": 40,
+      "MRK": 41,
+      "LUK": 42,
+      "JHN": 43,
+      "ACT": 44,
+      "ROM": 45,
+      "CO1": 46,
+      "CO2": 47,
+      "GAL": 48,
+      "EPH": 49,
+      "PHP": 50,
+      "COL": 51,
+      "TH1": 52,
+      "TH2": 53,
+      "TI1": 54,
+      "TI2": 55,
+      "TIT": 56,
+      "PHM": 57,
+      "HEB": 58,
+      "PE1": 59,
+      "PE2": 60,
+      "JN1": 61,
+      "JN2": 62,
+      "JN3": 63,
+      "JAM": 64,
+      "JDE": 65,
+      "REV": 66
     },
     {
       "1": "GEN",
@@ -660,61 +543,44 @@
       "26": "EZE",
       "27": "DAN",
       "28": "HOS",
-      "29": "JOL",
-      "30": "AMO",
-      "31": "OBA",
-      "32": "JNA",
-      "33": "MIC",
+      "29": "AMO",
+      "30": "MIC",
+      "31": "JOL",
+      "32": "OBA",
+      "33": "JNA",
       "34": "NAH",
       "35": "HAB",
       "36": "ZEP",
       "37": "HAG",
       "38": "ZEC",
       "39": "MAL",
-      "40": "TOB",
-      "41": "JDT",
-      "42": "ESG",
-      "43": "WIS",
-      "44": "SIR",
-      "45": "BAR",
-      "46": "PAZ",
-      "47": "SUS",
-      "48": "BEL",
-      "49": "MA1",
-      "50": "MA2",
-      "51": "GES",
-      "52": "MAN",
-      "53": "PSS",
-      "54": "MA3",
-      "55": "LES",
-      "56": "MA4",
-      "57": "MAT",
-      "58": "MRK",
-      "59": "LUK",
-      "60": "JHN",
-      "61": "ACT",
-      "62": "ROM",
-      "63": "CO1",
-      "64": "CO2",
-      "65": "GAL",
-      "66": "EPH",
-      "67": "PHP",
-      "68": "COL",
-      "69": "TH1",
-      "70": "TH2",
-      "71": "TI1",
-      "72": "TI2",
-      "73": "TIT",
-      "74": "PHM",
-      "75": "HEB",
-      "76": "JAM",
-      "77": "PE1",
-      "78": "PE2",
-      "79": "JN1",
-      "80": "JN2",
-      "81": "JN3",
-      "82": "JDE",
-      "83": "REV"
+      "40": "MAT",
+      "41": "MRK",
+      "42": "LUK",
+      "43": "JHN",
+      "44": "ACT",
+      "45": "ROM",
+      "46": "CO1",
+      "47": "CO2",
+      "48": "GAL",
+      "49": "EPH",
+      "50": "PHP",
+      "51": "COL",
+      "52": "TH1",
+      "53": "TH2",
+      "54": "TI1",
+      "55": "TI2",
+      "56": "TIT",
+      "57": "PHM",
+      "58": "HEB",
+      "59": "PE1",
+      "60": "PE2",
+      "61": "JN1",
+      "62": "JN2",
+      "63": "JN3",
+      "64": "JAM",
+      "65": "JDE",
+      "66": "REV"
     }
   ],
   "EuropeanBible": [
@@ -801,75 +667,243 @@
       "5": "DEU",
       "6": "JOS",
       "7": "JDG",
-      "8": "RUT",
-      "9": "SA1",
-      "10": "SA2",
-      "11": "KI1",
-      "12": "KI2",
-      "13": "CH1",
-      "14": "CH2",
-      "15": "EZR",
-      "16": "NEH",
-      "17": "TOB",
-      "18": "JDT",
-      "19": "EST",
-      "20": "MA1",
-      "21": "MA2",
-      "22": "JOB",
-      "23": "PSA",
-      "24": "PRO",
-      "25": "ECC",
-      "26": "SNG",
-      "27": "WIS",
-      "28": "SIR",
-      "29": "ISA",
-      "30": "JER",
-      "31": "LAM",
-      "32": "BAR",
-      "33": "EZE",
-      "34": "DAN",
-      "35": "HOS",
-      "36": "JOL",
-      "37": "AMO",
-      "38": "OBA",
-      "39": "JNA",
-      "40": "MIC",
-      "41": "NAH",
-      "42": "HAB",
-      "43": "ZEP",
-      "44": "HAG",
-      "45": "ZEC",
-      "46": "MAL",
-      "47": "MAT",
-      "48": "MRK",
-      "49": "LUK",
-      "50": "JHN",
-      "51": "ACT",
-      "52": "ROM",
-      "53": "CO1",
-      "54": "CO2",
-      "55": "GAL",
-      "56": "EPH",
-      "57": "PHP",
-      "58": "COL",
-      "59": "TH1",
-      "60": "TH2",
-      "61": "TI1",
-      "62": "TI2",
-      "63": "TIT",
-      "64": "PHM",
-      "65": "HEB",
-      "66": "JAM",
-      "67": "PE1",
-      "68": "PE2",
-      "69": "JN1",
-      "70": "JN2",
-      "71": "JN3",
-      "72": "JDE",
-      "73": "REV"
+      "8": "RUT",
+      "9": "SA1",
+      "10": "SA2",
+      "11": "KI1",
+      "12": "KI2",
+      "13": "CH1",
+      "14": "CH2",
+      "15": "EZR",
+      "16": "NEH",
+      "17": "TOB",
+      "18": "JDT",
+      "19": "EST",
+      "20": "MA1",
+      "21": "MA2",
+      "22": "JOB",
+      "23": "PSA",
+      "24": "PRO",
+      "25": "ECC",
+      "26": "SNG",
+      "27": "WIS",
+      "28": "SIR",
+      "29": "ISA",
+      "30": "JER",
+      "31": "LAM",
+      "32": "BAR",
+      "33": "EZE",
+      "34": "DAN",
+      "35": "HOS",
+      "36": "JOL",
+      "37": "AMO",
+      "38": "OBA",
+      "39": "JNA",
+      "40": "MIC",
+      "41": "NAH",
+      "42": "HAB",
+      "43": "ZEP",
+      "44": "HAG",
+      "45": "ZEC",
+      "46": "MAL",
+      "47": "MAT",
+      "48": "MRK",
+      "49": "LUK",
+      "50": "JHN",
+      "51": "ACT",
+      "52": "ROM",
+      "53": "CO1",
+      "54": "CO2",
+      "55": "GAL",
+      "56": "EPH",
+      "57": "PHP",
+      "58": "COL",
+      "59": "TH1",
+      "60": "TH2",
+      "61": "TI1",
+      "62": "TI2",
+      "63": "TIT",
+      "64": "PHM",
+      "65": "HEB",
+      "66": "JAM",
+      "67": "PE1",
+      "68": "PE2",
+      "69": "JN1",
+      "70": "JN2",
+      "71": "JN3",
+      "72": "JDE",
+      "73": "REV"
+    }
+  ],
+  "GutenbergNewTestament": [
+    {
+      "MAT": 1,
+      "MRK": 2,
+      "LUK": 3,
+      "JHN": 4,
+      "ROM": 5,
+      "CO1": 6,
+      "CO2": 7,
+      "GAL": 8,
+      "EPH": 9,
+      "PHP": 10,
+      "COL": 11,
+      "TH1": 12,
+      "TH2": 13,
+      "TI1": 14,
+      "TI2": 15,
+      "TIT": 16,
+      "PHM": 17,
+      "HEB": 18,
+      "ACT": 19,
+      "JAM": 20,
+      "PE1": 21,
+      "PE2": 22,
+      "JN1": 23,
+      "JN2": 24,
+      "JN3": 25,
+      "JDE": 26,
+      "REV": 27
+    },
+    {
+      "1": "MAT",
+      "2": "MRK",
+      "3": "LUK",
+      "4": "JHN",
+      "5": "ROM",
+      "6": "CO1",
+      "7": "CO2",
+      "8": "GAL",
+      "9": "EPH",
+      "10": "PHP",
+      "11": "COL",
+      "12": "TH1",
+      "13": "TH2",
+      "14": "TI1",
+      "15": "TI2",
+      "16": "TIT",
+      "17": "PHM",
+      "18": "HEB",
+      "19": "ACT",
+      "20": "JAM",
+      "21": "PE1",
+      "22": "PE2",
+      "23": "JN1",
+      "24": "JN2",
+      "25": "JN3",
+      "26": "JDE",
+      "27": "REV"
+    }
+  ],
+  "HebrewLetteris": [
+    {
+      "GEN": 1,
+      "EXO": 2,
+      "LEV": 3,
+      "NUM": 4,
+      "DEU": 5,
+      "JOS": 6,
+      "JDG": 7,
+      "SAM": 8,
+      "KGS": 9,
+      "ISA": 10,
+      "JER": 11,
+      "EZE": 12,
+      "P12": 13,
+      "PSA": 14,
+      "PRO": 15,
+      "JOB": 16,
+      "SNG": 17,
+      "RUT": 18,
+      "LAM": 19,
+      "ECC": 20,
+      "EST": 21,
+      "DAN": 22,
+      "EZN": 23,
+      "CHR": 24
+    },
+    {
+      "1": "GEN",
+      "2": "EXO",
+      "3": "LEV",
+      "4": "NUM",
+      "5": "DEU",
+      "6": "JOS",
+      "7": "JDG",
+      "8": "SAM",
+      "9": "KGS",
+      "10": "ISA",
+      "11": "JER",
+      "12": "EZE",
+      "13": "P12",
+      "14": "PSA",
+      "15": "PRO",
+      "16": "JOB",
+      "17": "SNG",
+      "18": "RUT",
+      "19": "LAM",
+      "20": "ECC",
+      "21": "EST",
+      "22": "DAN",
+      "23": "EZN",
+      "24": "CHR"
+    }
+  ],
+  "HebrewStuttgart": [
+    {
+      "GEN": 1,
+      "EXO": 2,
+      "LEV": 3,
+      "NUM": 4,
+      "DEU": 5,
+      "JOS": 6,
+      "JDG": 7,
+      "SAM": 8,
+      "KGS": 9,
+      "ISA": 10,
+      "JER": 11,
+      "EZE": 12,
+      "P12": 13,
+      "PSA": 14,
+      "JOB": 15,
+      "PRO": 16,
+      "SNG": 17,
+      "RUT": 18,
+      "LAM": 19,
+      "ECC": 20,
+      "EST": 21,
+      "DAN": 22,
+      "EZN": 23,
+      "CHR": 24
+    },
+    {
+      "1": "GEN",
+      "2": "EXO",
+      "3": "LEV",
+      "4": "NUM",
+      "5": "DEU",
+      "6": "JOS",
+      "7": "JDG",
+      "8": "SAM",
+      "9": "KGS",
+      "10": "ISA",
+      "11": "JER",
+      "12": "EZE",
+      "13": "P12",
+      "14": "PSA",
+      "15": "JOB",
+      "16": "PRO",
+      "17": "SNG",
+      "18": "RUT",
+      "19": "LAM",
+      "20": "ECC",
+      "21": "EST",
+      "22": "DAN",
+      "23": "EZN",
+      "24": "CHR"
     }
   ],
-  "SynodalBible": [
+  "KJVwithApocrypha": [
     {
       "GEN": 1,
       "EXO": 2,
@@ -885,70 +919,72 @@
       "KI2": 12,
       "CH1": 13,
       "CH2": 14,
-      "MAN": 15,
-      "EZR": 16,
-      "NEH": 17,
-      "GES": 18,
-      "TOB": 19,
-      "JDT": 20,
-      "EST": 21,
-      "JOB": 22,
-      "PSA": 23,
-      "PRO": 24,
-      "ECC": 25,
-      "SNG": 26,
-      "WIS": 27,
-      "SIR": 28,
-      "ISA": 29,
-      "JER": 30,
-      "LAM": 31,
-      "LJE": 32,
-      "BAR": 33,
-      "EZE": 34,
-      "DAN": 35,
-      "HOS": 36,
-      "JOL": 37,
-      "AMO": 38,
-      "OBA": 39,
-      "JNA": 40,
-      "MIC": 41,
-      "NAH": 42,
-      "HAB": 43,
-      "ZEP": 44,
-      "HAG": 45,
-      "ZEC": 46,
-      "MAL": 47,
-      "MA1": 48,
-      "MA2": 49,
-      "MA3": 50,
-      "LES": 51,
-      "MAT": 52,
-      "MRK": 53,
-      "LUK": 54,
-      "JHN": 55,
-      "ACT": 56,
-      "JAM": 57,
-      "PE1": 58,
-      "PE2": 59,
-      "JN1": 60,
-      "JN2": 61,
-      "JN3": 62,
-      "JDE": 63,
-      "ROM": 64,
-      "CO1": 65,
-      "CO2": 66,
-      "GAL": 67,
-      "EPH": 68,
-      "PHP": 69,
-      "COL": 70,
-      "TH1": 71,
-      "TH2": 72,
-      "TI1": 73,
-      "TI2": 74,
-      "TIT": 75,
-      "PHM": 76,
-      "HEB": 77,
-      "REV": 78
+      "EZR": 15,
+      "NEH": 16,
+      "EST": 17,
+      "JOB": 18,
+      "PSA": 19,
+      "PRO": 20,
+      "ECC": 21,
+      "SNG": 22,
+      "ISA": 23,
+      "JER": 24,
+      "LAM": 25,
+      "EZE": 26,
+      "DAN": 27,
+      "HOS": 28,
+      "JOL": 29,
+      "AMO": 30,
+      "OBA": 31,
+      "JNA": 32,
+      "MIC": 33,
+      "NAH": 34,
+      "HAB": 35,
+      "ZEP": 36,
+      "HAG": 37,
+      "ZEC": 38,
+      "MAL": 39,
+      "GES": 40,
+      "LES": 41,
+      "TOB": 42,
+      "JDT": 43,
+      "ESA": 44,
+      "WIS": 45,
+      "SIR": 46,
+      "BAR": 47,
+      "PAZ": 48,
+      "SUS": 49,
+      "BEL": 50,
+      "MAN": 51,
+      "MA1": 52,
+      "MA2": 53,
+      "MAT": 54,
+      "MRK": 55,
+      "LUK": 56,
+      "JHN": 57,
+      "ACT": 58,
+      "ROM": 59,
+      "CO1": 60,
+      "CO2": 61,
+      "GAL": 62,
+      "EPH": 63,
+      "PHP": 64,
+      "COL": 65,
+      "TH1": 66,
+      "TH2": 67,
+      "TI1": 68,
+      "TI2": 69,
+      "TIT": 70,
+      "PHM": 71,
+      "HEB": 72,
+      "JAM": 73,
+      "PE1": 74,
+      "PE2": 75,
+      "JN1": 76,
+      "JN2": 77,
+      "JN3": 78,
+      "JDE": 79,
+      "REV": 80
     },
     {
       "1": "GEN",
@@ -965,70 +1001,72 @@
       "12": "KI2",
       "13": "CH1",
       "14": "CH2",
-      "15": "MAN",
-      "16": "EZR",
-      "17": "NEH",
-      "18": "GES",
-      "19": "TOB",
-      "20": "JDT",
-      "21": "EST",
-      "22": "JOB",
-      "23": "PSA",
-      "24": "PRO",
-      "25": "ECC",
-      "26": "SNG",
-      "27": "WIS",
-      "28": "SIR",
-      "29": "ISA",
-      "30": "JER",
-      "31": "LAM",
-      "32": "LJE",
-      "33": "BAR",
-      "34": "EZE",
-      "35": "DAN",
-      "36": "HOS",
-      "37": "JOL",
-      "38": "AMO",
-      "39": "OBA",
-      "40": "JNA",
-      "41": "MIC",
-      "42": "NAH",
-      "43": "HAB",
-      "44": "ZEP",
-      "45": "HAG",
-      "46": "ZEC",
-      "47": "MAL",
-      "48": "MA1",
-      "49": "MA2",
-      "50": "MA3",
-      "51": "LES",
-      "52": "MAT",
-      "53": "MRK",
-      "54": "LUK",
-      "55": "JHN",
-      "56": "ACT",
-      "57": "JAM",
-      "58": "PE1",
-      "59": "PE2",
-      "60": "JN1",
-      "61": "JN2",
-      "62": "JN3",
-      "63": "JDE",
-      "64": "ROM",
-      "65": "CO1",
-      "66": "CO2",
-      "67": "GAL",
-      "68": "EPH",
-      "69": "PHP",
-      "70": "COL",
-      "71": "TH1",
-      "72": "TH2",
-      "73": "TI1",
-      "74": "TI2",
-      "75": "TIT",
-      "76": "PHM",
-      "77": "HEB",
-      "78": "REV"
+      "15": "EZR",
+      "16": "NEH",
+      "17": "EST",
+      "18": "JOB",
+      "19": "PSA",
+      "20": "PRO",
+      "21": "ECC",
+      "22": "SNG",
+      "23": "ISA",
+      "24": "JER",
+      "25": "LAM",
+      "26": "EZE",
+      "27": "DAN",
+      "28": "HOS",
+      "29": "JOL",
+      "30": "AMO",
+      "31": "OBA",
+      "32": "JNA",
+      "33": "MIC",
+      "34": "NAH",
+      "35": "HAB",
+      "36": "ZEP",
+      "37": "HAG",
+      "38": "ZEC",
+      "39": "MAL",
+      "40": "GES",
+      "41": "LES",
+      "42": "TOB",
+      "43": "JDT",
+      "44": "ESA",
+      "45": "WIS",
+      "46": "SIR",
+      "47": "BAR",
+      "48": "PAZ",
+      "49": "SUS",
+      "50": "BEL",
+      "51": "MAN",
+      "52": "MA1",
+      "53": "MA2",
+      "54": "MAT",
+      "55": "MRK",
+      "56": "LUK",
+      "57": "JHN",
+      "58": "ACT",
+      "59": "ROM",
+      "60": "CO1",
+      "61": "CO2",
+      "62": "GAL",
+      "63": "EPH",
+      "64": "PHP",
+      "65": "COL",
+      "66": "TH1",
+      "67": "TH2",
+      "68": "TI1",
+      "69": "TI2",
+      "70": "TIT",
+      "71": "PHM",
+      "72": "HEB",
+      "73": "JAM",
+      "74": "PE1",
+      "75": "PE2",
+      "76": "JN1",
+      "77": "JN2",
+      "78": "JN3",
+      "79": "JDE",
+      "80": "REV"
     }
   ],
   "Leningradensis": [
@@ -1115,89 +1153,7 @@
       "39": "NEH"
     }
   ],
-  "ModernJewish": [
-    {
-      "GEN": 1,
-      "EXO": 2,
-      "LEV": 3,
-      "NUM": 4,
-      "DEU": 5,
-      "JOS": 6,
-      "JDG": 7,
-      "SA1": 8,
-      "SA2": 9,
-      "KI1": 10,
-      "KI2": 11,
-      "ISA": 12,
-      "JER": 13,
-      "EZE": 14,
-      "HOS": 15,
-      "JOL": 16,
-      "AMO": 17,
-      "OBA": 18,
-      "JNA": 19,
-      "MIC": 20,
-      "NAH": 21,
-      "HAB": 22,
-      "ZEP": 23,
-      "HAG": 24,
-      "ZEC": 25,
-      "MAL": 26,
-      "PSA": 27,
-      "PRO": 28,
-      "JOB": 29,
-      "SNG": 30,
-      "RUT": 31,
-      "LAM": 32,
-      "ECC": 33,
-      "EST": 34,
-      "DAN": 35,
-      "EZN": 36,
-      "CH1": 37,
-      "CH2": 38
-    },
-    {
-      "1": "GEN",
-      "2": "EXO",
-      "3": "LEV",
-      "4": "NUM",
-      "5": "DEU",
-      "6": "JOS",
-      "7": "JDG",
-      "8": "SA1",
-      "9": "SA2",
-      "10": "KI1",
-      "11": "KI2",
-      "12": "ISA",
-      "13": "JER",
-      "14": "EZE",
-      "15": "HOS",
-      "16": "JOL",
-      "17": "AMO",
-      "18": "OBA",
-      "19": "JNA",
-      "20": "MIC",
-      "21": "NAH",
-      "22": "HAB",
-      "23": "ZEP",
-      "24": "HAG",
-      "25": "ZEC",
-      "26": "MAL",
-      "27": "PSA",
-      "28": "PRO",
-      "29": "JOB",
-      "30": "SNG",
-      "31": "RUT",
-      "32": "LAM",
-      "33": "ECC",
-      "34": "EST",
-      "35": "DAN",
-      "36": "EZN",
-      "37": "CH1",
-      "38": "CH2"
-    }
-  ],
-  "EthiopianProtestantBible": [
+  "LutheranBible": [
     {
       "GEN": 1,
       "EXO": 2,
@@ -1227,44 +1183,54 @@
       "EZE": 26,
       "DAN": 27,
       "HOS": 28,
-      "AMO": 29,
-      "MIC": 30,
-      "JOL": 31,
-      "OBA": 32,
-      "JNA": 33,
+      "JOL": 29,
+      "AMO": 30,
+      "OBA": 31,
+      "JNA": 32,
+      "MIC": 33,
       "NAH": 34,
       "HAB": 35,
       "ZEP": 36,
-      "HAG": 37,
-      "ZEC": 38,
-      "MAL": 39,
-      "MAT": 40,
-      "MRK": 41,
-      "LUK": 42,
-      "JHN": 43,
-      "ACT": 44,
-      "ROM": 45,
-      "CO1": 46,
-      "CO2": 47,
-      "GAL": 48,
-      "EPH": 49,
-      "PHP": 50,
-      "COL": 51,
-      "TH1": 52,
-      "TH2": 53,
-      "TI1": 54,
-      "TI2": 55,
-      "TIT": 56,
-      "PHM": 57,
-      "HEB": 58,
-      "PE1": 59,
-      "PE2": 60,
-      "JN1": 61,
-      "JN2": 62,
-      "JN3": 63,
-      "JAM": 64,
-      "JDE": 65,
-      "REV": 66
+      "HAG": 37,
+      "ZEC": 38,
+      "MAL": 39,
+      "JDT": 40,
+      "WIS": 41,
+      "TOB": 42,
+      "SIR": 43,
+      "BAR": 44,
+      "MA1": 45,
+      "MA2": 46,
+      "ESA": 47,
+      "DNA": 48,
+      "MAN": 49,
+      "MAT": 50,
+      "MRK": 51,
+      "LUK": 52,
+      "JHN": 53,
+      "ACT": 54,
+      "ROM": 55,
+      "CO1": 56,
+      "CO2": 57,
+      "GAL": 58,
+      "EPH": 59,
+      "PHP": 60,
+      "COL": 61,
+      "TH1": 62,
+      "TH2": 63,
+      "TI1": 64,
+      "TI2": 65,
+      "TIT": 66,
+      "PHM": 67,
+      "PE1": 68,
+      "PE2": 69,
+      "JN1": 70,
+      "JN2": 71,
+      "JN3": 72,
+      "HEB": 73,
+      "JAM": 74,
+      "JDE": 75,
+      "REV": 76
     },
     {
       "1": "GEN",
@@ -1295,44 +1261,54 @@
       "26": "EZE",
       "27": "DAN",
       "28": "HOS",
-      "29": "AMO",
-      "30": "MIC",
-      "31": "JOL",
-      "32": "OBA",
-      "33": "JNA",
+      "29": "JOL",
+      "30": "AMO",
+      "31": "OBA",
+      "32": "JNA",
+      "33": "MIC",
       "34": "NAH",
       "35": "HAB",
       "36": "ZEP",
       "37": "HAG",
       "38": "ZEC",
       "39": "MAL",
-      "40": "MAT",
-      "41": "MRK",
-      "42": "LUK",
-      "43": "JHN",
-      "44": "ACT",
-      "45": "ROM",
-      "46": "CO1",
-      "47": "CO2",
-      "48": "GAL",
-      "49": "EPH",
-      "50": "PHP",
-      "51": "COL",
-      "52": "TH1",
-      "53": "TH2",
-      "54": "TI1",
-      "55": "TI2",
-      "56": "TIT",
-      "57": "PHM",
-      "58": "HEB",
-      "59": "PE1",
-      "60": "PE2",
-      "61": "JN1",
-      "62": "JN2",
-      "63": "JN3",
-      "64": "JAM",
-      "65": "JDE",
-      "66": "REV"
+      "40": "JDT",
+      "41": "WIS",
+      "42": "TOB",
+      "43": "SIR",
+      "44": "BAR",
+      "45": "MA1",
+      "46": "MA2",
+      "47": "ESA",
+      "48": "DNA",
+      "49": "MAN",
+      "50": "MAT",
+      "51": "MRK",
+      "52": "LUK",
+      "53": "JHN",
+      "54": "ACT",
+      "55": "ROM",
+      "56": "CO1",
+      "57": "CO2",
+      "58": "GAL",
+      "59": "EPH",
+      "60": "PHP",
+      "61": "COL",
+      "62": "TH1",
+      "63": "TH2",
+      "64": "TI1",
+      "65": "TI2",
+      "66": "TIT",
+      "67": "PHM",
+      "68": "PE1",
+      "69": "PE2",
+      "70": "JN1",
+      "71": "JN2",
+      "72": "JN3",
+      "73": "HEB",
+      "74": "JAM",
+      "75": "JDE",
+      "76": "REV"
     }
   ],
   "MasoreticText": [
@@ -1419,7 +1395,7 @@
       "39": "CH2"
     }
   ],
-  "HebrewStuttgart": [
+  "ModernJewish": [
     {
       "GEN": 1,
       "EXO": 2,
@@ -1428,23 +1404,37 @@
       "DEU": 5,
       "JOS": 6,
       "JDG": 7,
-      "SAM": 8,
-      "KGS": 9,
-      "ISA": 10,
-      "JER": 11,
-      "EZE": 12,
-      "P12": 13,
-      "PSA": 14,
-      "JOB": 15,
-      "PRO": 16,
-      "SNG": 17,
-      "RUT": 18,
-      "LAM": 19,
-      "ECC": 20,
-      "EST": 21,
-      "DAN": 22,
-      "EZN": 23,
-      "CHR": 24
+      "SA1": 8,
+      "SA2": 9,
+      "KI1": 10,
+      "KI2": 11,
+      "ISA": 12,
+      "JER": 13,
+      "EZE": 14,
+      "HOS": 15,
+      "JOL": 16,
+      "AMO": 17,
+      "OBA": 18,
+      "JNA": 19,
+      "MIC": 20,
+      "NAH": 21,
+      "HAB": 22,
+      "ZEP": 23,
+      "HAG": 24,
+      "ZEC": 25,
+      "MAL": 26,
+      "PSA": 27,
+      "PRO": 28,
+      "JOB": 29,
+      "SNG": 30,
+      "RUT": 31,
+      "LAM": 32,
+      "ECC": 33,
+      "EST": 34,
+      "DAN": 35,
+      "EZN": 36,
+      "CH1": 37,
+      "CH2": 38
     },
     {
       "1": "GEN",
@@ -1454,26 +1444,40 @@
       "5": "DEU",
       "6": "JOS",
       "7": "JDG",
-      "8": "SAM",
-      "9": "KGS",
-      "10": "ISA",
-      "11": "JER",
-      "12": "EZE",
-      "13": "P12",
-      "14": "PSA",
-      "15": "JOB",
-      "16": "PRO",
-      "17": "SNG",
-      "18": "RUT",
-      "19": "LAM",
-      "20": "ECC",
-      "21": "EST",
-      "22": "DAN",
-      "23": "EZN",
-      "24": "CHR"
+      "8": "SA1",
+      "9": "SA2",
+      "10": "KI1",
+      "11": "KI2",
+      "12": "ISA",
+      "13": "JER",
+      "14": "EZE",
+      "15": "HOS",
+      "16": "JOL",
+      "17": "AMO",
+      "18": "OBA",
+      "19": "JNA",
+      "20": "MIC",
+      "21": "NAH",
+      "22": "HAB",
+      "23": "ZEP",
+      "24": "HAG",
+      "25": "ZEC",
+      "26": "MAL",
+      "27": "PSA",
+      "28": "PRO",
+      "29": "JOB",
+      "30": "SNG",
+      "31": "RUT",
+      "32": "LAM",
+      "33": "ECC",
+      "34": "EST",
+      "35": "DAN",
+      "36": "EZN",
+      "37": "CH1",
+      "38": "CH2"
     }
   ],
-  "HebrewLetteris": [
+  "NRSVwithApocrypha": [
     {
       "GEN": 1,
       "EXO": 2,
@@ -1482,23 +1486,82 @@
       "DEU": 5,
       "JOS": 6,
       "JDG": 7,
-      "SAM": 8,
-      "KGS": 9,
-      "ISA": 10,
-      "JER": 11,
-      "EZE": 12,
-      "P12": 13,
-      "PSA": 14,
-      "PRO": 15,
-      "JOB": 16,
-      "SNG": 17,
-      "RUT": 18,
-      "LAM": 19,
-      "ECC": 20,
-      "EST": 21,
-      "DAN": 22,
-      "EZN": 23,
-      "CHR": 24
+      "RUT": 8,
+      "SA1": 9,
+      "SA2": 10,
+      "KI1": 11,
+      "KI2": 12,
+      "CH1": 13,
+      "CH2": 14,
+      "EZR": 15,
+      "NEH": 16,
+      "EST": 17,
+      "JOB": 18,
+      "PSA": 19,
+      "PRO": 20,
+      "ECC": 21,
+      "SNG": 22,
+      "ISA": 23,
+      "JER": 24,
+      "LAM": 25,
+      "EZE": 26,
+      "DAN": 27,
+      "HOS": 28,
+      "JOL": 29,
+      "AMO": 30,
+      "OBA": 31,
+      "JNA": 32,
+      "MIC": 33,
+      "NAH": 34,
+      "HAB": 35,
+      "ZEP": 36,
+      "HAG": 37,
+      "ZEC": 38,
+      "MAL": 39,
+      "TOB": 40,
+      "JDT": 41,
+      "ESG": 42,
+      "WIS": 43,
+      "SIR": 44,
+      "BAR": 45,
+      "PAZ": 46,
+      "SUS": 47,
+      "BEL": 48,
+      "MA1": 49,
+      "MA2": 50,
+      "GES": 51,
+      "MAN": 52,
+      "PSS": 53,
+      "MA3": 54,
+      "LES": 55,
+      "MA4": 56,
+      "MAT": 57,
+      "MRK": 58,
+      "LUK": 59,
+      "JHN": 60,
+      "ACT": 61,
+      "ROM": 62,
+      "CO1": 63,
+      "CO2": 64,
+      "GAL": 65,
+      "EPH": 66,
+      "PHP": 67,
+      "COL": 68,
+      "TH1": 69,
+      "TH2": 70,
+      "TI1": 71,
+      "TI2": 72,
+      "TIT": 73,
+      "PHM": 74,
+      "HEB": 75,
+      "JAM": 76,
+      "PE1": 77,
+      "PE2": 78,
+      "JN1": 79,
+      "JN2": 80,
+      "JN3": 81,
+      "JDE": 82,
+      "REV": 83
     },
     {
       "1": "GEN",
@@ -1508,143 +1571,82 @@
       "5": "DEU",
       "6": "JOS",
       "7": "JDG",
-      "8": "SAM",
-      "9": "KGS",
-      "10": "ISA",
-      "11": "JER",
-      "12": "EZE",
-      "13": "P12",
-      "14": "PSA",
-      "15": "PRO",
-      "16": "JOB",
-      "17": "SNG",
-      "18": "RUT",
-      "19": "LAM",
-      "20": "ECC",
-      "21": "EST",
-      "22": "DAN",
-      "23": "EZN",
-      "24": "CHR"
-    }
-  ],
-  "ArmenianNewTestament": [
-    {
-      "MAT": 1,
-      "MRK": 2,
-      "LUK": 3,
-      "JHN": 4,
-      "ACT": 5,
-      "JAM": 6,
-      "PE1": 7,
-      "PE2": 8,
-      "JN1": 9,
-      "JN2": 10,
-      "JN3": 11,
-      "JDE": 12,
-      "ROM": 13,
-      "CO1": 14,
-      "CO2": 15,
-      "GAL": 16,
-      "EPH": 17,
-      "PHP": 18,
-      "COL": 19,
-      "TH1": 20,
-      "TH2": 21,
-      "HEB": 22,
-      "TI1": 23,
-      "TI2": 24,
-      "TIT": 25,
-      "PHM": 26,
-      "REV": 27
-    },
-    {
-      "1": "MAT",
-      "2": "MRK",
-      "3": "LUK",
-      "4": "JHN",
-      "5": "ACT",
-      "6": "JAM",
-      "7": "PE1",
-      "8": "PE2",
-      "9": "JN1",
-      "10": "JN2",
-      "11": "JN3",
-      "12": "JDE",
-      "13": "ROM",
-      "14": "CO1",
-      "15": "CO2",
-      "16": "GAL",
-      "17": "EPH",
-      "18": "PHP",
-      "19": "COL",
-      "20": "TH1",
-      "21": "TH2",
-      "22": "HEB",
-      "23": "TI1",
-      "24": "TI2",
-      "25": "TIT",
-      "26": "PHM",
-      "27": "REV"
-    }
-  ],
-  "GutenbergNewTestament": [
-    {
-      "MAT": 1,
-      "MRK": 2,
-      "LUK": 3,
-      "JHN": 4,
-      "ROM": 5,
-      "CO1": 6,
-      "CO2": 7,
-      "GAL": 8,
-      "EPH": 9,
-      "PHP": 10,
-      "COL": 11,
-      "TH1": 12,
-      "TH2": 13,
-      "TI1": 14,
-      "TI2": 15,
-      "TIT": 16,
-      "PHM": 17,
-      "HEB": 18,
-      "ACT": 19,
-      "JAM": 20,
-      "PE1": 21,
-      "PE2": 22,
-      "JN1": 23,
-      "JN2": 24,
-      "JN3": 25,
-      "JDE": 26,
-      "REV": 27
-    },
-    {
-      "1": "MAT",
-      "2": "MRK",
-      "3": "LUK",
-      "4": "JHN",
-      "5": "ROM",
-      "6": "CO1",
-      "7": "CO2",
-      "8": "GAL",
-      "9": "EPH",
-      "10": "PHP",
-      "11": "COL",
-      "12": "TH1",
-      "13": "TH2",
-      "14": "TI1",
-      "15": "TI2",
-      "16": "TIT",
-      "17": "PHM",
-      "18": "HEB",
-      "19": "ACT",
-      "20": "JAM",
-      "21": "PE1",
-      "22": "PE2",
-      "23": "JN1",
-      "24": "JN2",
-      "25": "JN3",
-      "26": "JDE",
-      "27": "REV"
+      "8": "RUT",
+      "9": "SA1",
+      "10": "SA2",
+      "11": "KI1",
+      "12": "KI2",
+      "13": "CH1",
+      "14": "CH2",
+      "15": "EZR",
+      "16": "NEH",
+      "17": "EST",
+      "18": "JOB",
+      "19": "PSA",
+      "20": "PRO",
+      "21": "ECC",
+      "22": "SNG",
+      "23": "ISA",
+      "24": "JER",
+      "25": "LAM",
+      "26": "EZE",
+      "27": "DAN",
+      "28": "HOS",
+      "29": "JOL",
+      "30": "AMO",
+      "31": "OBA",
+      "32": "JNA",
+      "33": "MIC",
+      "34": "NAH",
+      "35": "HAB",
+      "36": "ZEP",
+      "37": "HAG",
+      "38": "ZEC",
+      "39": "MAL",
+      "40": "TOB",
+      "41": "JDT",
+      "42": "ESG",
+      "43": "WIS",
+      "44": "SIR",
+      "45": "BAR",
+      "46": "PAZ",
+      "47": "SUS",
+      "48": "BEL",
+      "49": "MA1",
+      "50": "MA2",
+      "51": "GES",
+      "52": "MAN",
+      "53": "PSS",
+      "54": "MA3",
+      "55": "LES",
+      "56": "MA4",
+      "57": "MAT",
+      "58": "MRK",
+      "59": "LUK",
+      "60": "JHN",
+      "61": "ACT",
+      "62": "ROM",
+      "63": "CO1",
+      "64": "CO2",
+      "65": "GAL",
+      "66": "EPH",
+      "67": "PHP",
+      "68": "COL",
+      "69": "TH1",
+      "70": "TH2",
+      "71": "TI1",
+      "72": "TI2",
+      "73": "TIT",
+      "74": "PHM",
+      "75": "HEB",
+      "76": "JAM",
+      "77": "PE1",
+      "78": "PE2",
+      "79": "JN1",
+      "80": "JN2",
+      "81": "JN3",
+      "82": "JDE",
+      "83": "REV"
     }
   ],
   "Septuagint": [
@@ -1757,390 +1759,388 @@
       "52": "MA4"
     }
   ],
-  "ALL": [
+  "SynodalBible": [
     {
-      "PRF": 1,
-      "ACK": 2,
-      "INT": 3,
-      "FRT": 4,
-      "TOC": 5,
-      "MOS": 6,
-      "GEN": 7,
-      "EXO": 8,
-      "LEV": 9,
-      "NUM": 10,
-      "DEU": 11,
-      "JOS": 12,
-      "JDG": 13,
-      "RUT": 14,
-      "SAM": 15,
-      "SA1": 16,
-      "SA2": 17,
-      "KGS": 18,
-      "KI1": 19,
-      "KI2": 20,
-      "CHR": 21,
-      "CH1": 22,
-      "CH2": 23,
-      "EZR": 24,
-      "EZN": 25,
-      "NEH": 26,
-      "EST": 27,
-      "ESA": 28,
-      "ESC": 29,
-      "JOB": 30,
-      "PSA": 31,
-      "PB1": 32,
-      "PB2": 33,
-      "PB3": 34,
-      "PB4": 35,
-      "PB5": 36,
-      "PSB": 37,
-      "PS2": 38,
-      "PS3": 39,
-      "PSS": 40,
-      "PRO": 41,
-      "ECC": 42,
-      "SNG": 43,
-      "ISA": 44,
-      "JER": 45,
-      "LAM": 46,
-      "EZE": 47,
-      "DAN": 48,
-      "DNG": 49,
-      "DNA": 50,
-      "DNC": 51,
-      "P12": 52,
-      "HOS": 53,
-      "JOL": 54,
-      "AMO": 55,
-      "OBA": 56,
-      "JNA": 57,
-      "MIC": 58,
-      "NAH": 59,
-      "HAB": 60,
-      "ZEP": 61,
-      "HAG": 62,
-      "ZEC": 63,
-      "MAL": 64,
-      "TOB": 65,
-      "JDT": 66,
-      "ESG": 67,
-      "WIS": 68,
-      "SIR": 69,
-      "BAR": 70,
-      "LJB": 71,
-      "LBA": 72,
-      "LB2": 73,
-      "BA2": 74,
-      "BA3": 75,
-      "BA4": 76,
-      "LJE": 77,
-      "PAZ": 78,
-      "SUS": 79,
-      "BEL": 80,
-      "MAC": 81,
-      "MA1": 82,
-      "MA2": 83,
-      "MA3": 84,
-      "MA4": 85,
-      "MA5": 86,
-      "GES": 87,
-      "LES": 88,
-      "EZA": 89,
-      "EZ5": 90,
-      "EZ6": 91,
-      "MAN": 92,
-      "ODE": 93,
-      "PSO": 94,
-      "PJE": 95,
-      "WSI": 96,
-      "TTP": 97,
-      "JUB": 98,
-      "ENO": 99,
-      "EN2": 100,
-      "REP": 101,
-      "CL1": 102,
-      "CL2": 103,
-      "SHE": 104,
-      "DID": 105,
-      "MAT": 106,
-      "MRK": 107,
-      "LUK": 108,
-      "JHN": 109,
-      "LKA": 110,
-      "ACT": 111,
-      "ROM": 112,
-      "CO1": 113,
-      "CO2": 114,
-      "GAL": 115,
-      "EPH": 116,
-      "PHP": 117,
-      "COL": 118,
-      "TH1": 119,
-      "TH2": 120,
-      "TI1": 121,
-      "TI2": 122,
-      "TIT": 123,
-      "PHM": 124,
-      "HEB": 125,
-      "JAM": 126,
-      "PE1": 127,
-      "PE2": 128,
-      "JN1": 129,
-      "JN2": 130,
-      "JN3": 131,
-      "JDE": 132,
-      "REV": 133,
-      "LAO": 134,
-      "COP": 135,
-      "CO3": 136,
-      "EUT": 137,
-      "DOJ": 138,
-      "LBB": 139,
-      "MQ1": 140,
-      "MQ2": 141,
-      "MQ3": 142,
-      "TAD": 143,
-      "LAE": 144,
-      "ASS": 145,
-      "TSO": 146,
-      "TJB": 147,
-      "MAI": 148,
-      "AEZ": 149,
-      "EZT": 150,
-      "EUP": 151,
-      "PEU": 152,
-      "VAM": 153,
-      "LAR": 154,
-      "ARI": 155,
-      "ABL": 156,
-      "ART": 157,
-      "CLM": 158,
-      "ELM": 159,
-      "HRE": 160,
-      "LPR": 161,
-      "EPL": 162,
-      "TEO": 163,
-      "RVE": 164,
-      "GHE": 165,
-      "GTR": 166,
-      "GMA": 167,
-      "GMC": 168,
-      "GTW": 169,
-      "GPH": 170,
-      "GTH": 171,
-      "GJU": 172,
-      "GBA": 173,
-      "AJA": 174,
-      "WJC": 175,
-      "GLS": 176,
-      "CNC": 177,
-      "TPC": 178,
-      "IXN": 179,
-      "IXP": 180,
-      "IXT": 181,
-      "BAK": 182,
-      "MAP": 183,
-      "XXA": 184,
-      "XXB": 185,
-      "XXC": 186,
-      "XXD": 187,
-      "XXE": 188,
-      "XXF": 189,
-      "XXG": 190
+      "GEN": 1,
+      "EXO": 2,
+      "LEV": 3,
+      "NUM": 4,
+      "DEU": 5,
+      "JOS": 6,
+      "JDG": 7,
+      "RUT": 8,
+      "SA1": 9,
+      "SA2": 10,
+      "KI1": 11,
+      "KI2": 12,
+      "CH1": 13,
+      "CH2": 14,
+      "MAN": 15,
+      "EZR": 16,
+      "NEH": 17,
+      "GES": 18,
+      "TOB": 19,
+      "JDT": 20,
+      "EST": 21,
+      "JOB": 22,
+      "PSA": 23,
+      "PRO": 24,
+      "ECC": 25,
+      "SNG": 26,
+      "WIS": 27,
+      "SIR": 28,
+      "ISA": 29,
+      "JER": 30,
+      "LAM": 31,
+      "LJE": 32,
+      "BAR": 33,
+      "EZE": 34,
+      "DAN": 35,
+      "HOS": 36,
+      "JOL": 37,
+      "AMO": 38,
+      "OBA": 39,
+      "JNA": 40,
+      "MIC": 41,
+      "NAH": 42,
+      "HAB": 43,
+      "ZEP": 44,
+      "HAG": 45,
+      "ZEC": 46,
+      "MAL": 47,
+      "MA1": 48,
+      "MA2": 49,
+      "MA3": 50,
+      "LES": 51,
+      "MAT": 52,
+      "MRK": 53,
+      "LUK": 54,
+      "JHN": 55,
+      "ACT": 56,
+      "JAM": 57,
+      "PE1": 58,
+      "PE2": 59,
+      "JN1": 60,
+      "JN2": 61,
+      "JN3": 62,
+      "JDE": 63,
+      "ROM": 64,
+      "CO1": 65,
+      "CO2": 66,
+      "GAL": 67,
+      "EPH": 68,
+      "PHP": 69,
+      "COL": 70,
+      "TH1": 71,
+      "TH2": 72,
+      "TI1": 73,
+      "TI2": 74,
+      "TIT": 75,
+      "PHM": 76,
+      "HEB": 77,
+      "REV": 78
     },
     {
-      "1": "PRF",
-      "2": "ACK",
-      "3": "INT",
-      "4": "FRT",
-      "5": "TOC",
-      "6": "MOS",
-      "7": "GEN",
-      "8": "EXO",
-      "9": "LEV",
-      "10": "NUM",
-      "11": "DEU",
-      "12": "JOS",
-      "13": "JDG",
-      "14": "RUT",
-      "15": "SAM",
-      "16": "SA1",
-      "17": "SA2",
-      "18": "KGS",
-      "19": "KI1",
-      "20": "KI2",
-      "21": "CHR",
-      "22": "CH1",
-      "23": "CH2",
-      "24": "EZR",
-      "25": "EZN",
-      "26": "NEH",
-      "27": "EST",
-      "28": "ESA",
-      "29": "ESC",
-      "30": "JOB",
-      "31": "PSA",
-      "32": "PB1",
-      "33": "PB2",
-      "34": "PB3",
-      "35": "PB4",
-      "36": "PB5",
-      "37": "PSB",
-      "38": "PS2",
-      "39": "PS3",
-      "40": "PSS",
-      "41": "PRO",
-      "42": "ECC",
-      "43": "SNG",
-      "44": "ISA",
-      "45": "JER",
-      "46": "LAM",
-      "47": "EZE",
-      "48": "DAN",
-      "49": "DNG",
-      "50": "DNA",
-      "51": "DNC",
-      "52": "P12",
-      "53": "HOS",
-      "54": "JOL",
-      "55": "AMO",
-      "56": "OBA",
-      "57": "JNA",
-      "58": "MIC",
-      "59": "NAH",
-      "60": "HAB",
-      "61": "ZEP",
-      "62": "HAG",
-      "63": "ZEC",
-      "64": "MAL",
-      "65": "TOB",
-      "66": "JDT",
-      "67": "ESG",
-      "68": "WIS",
-      "69": "SIR",
-      "70": "BAR",
-      "71": "LJB",
-      "72": "LBA",
-      "73": "LB2",
-      "74": "BA2",
-      "75": "BA3",
-      "76": "BA4",
-      "77": "LJE",
-      "78": "PAZ",
-      "79": "SUS",
-      "80": "BEL",
-      "81": "MAC",
-      "82": "MA1",
-      "83": "MA2",
-      "84": "MA3",
-      "85": "MA4",
-      "86": "MA5",
-      "87": "GES",
-      "88": "LES",
-      "89": "EZA",
-      "90": "EZ5",
-      "91": "EZ6",
-      "92": "MAN",
-      "93": "ODE",
-      "94": "PSO",
-      "95": "PJE",
-      "96": "WSI",
-      "97": "TTP",
-      "98": "JUB",
-      "99": "ENO",
-      "100": "EN2",
-      "101": "REP",
-      "102": "CL1",
-      "103": "CL2",
-      "104": "SHE",
-      "105": "DID",
-      "106": "MAT",
-      "107": "MRK",
-      "108": "LUK",
-      "109": "JHN",
-      "110": "LKA",
-      "111": "ACT",
-      "112": "ROM",
-      "113": "CO1",
-      "114": "CO2",
-      "115": "GAL",
-      "116": "EPH",
-      "117": "PHP",
-      "118": "COL",
-      "119": "TH1",
-      "120": "TH2",
-      "121": "TI1",
-      "122": "TI2",
-      "123": "TIT",
-      "124": "PHM",
-      "125": "HEB",
-      "126": "JAM",
-      "127": "PE1",
-      "128": "PE2",
-      "129": "JN1",
-      "130": "JN2",
-      "131": "JN3",
-      "132": "JDE",
-      "133": "REV",
-      "134": "LAO",
-      "135": "COP",
-      "136": "CO3",
-      "137": "EUT",
-      "138": "DOJ",
-      "139": "LBB",
-      "140": "MQ1",
-      "141": "MQ2",
-      "142": "MQ3",
-      "143": "TAD",
-      "144": "LAE",
-      "145": "ASS",
-      "146": "TSO",
-      "147": "TJB",
-      "148": "MAI",
-      "149": "AEZ",
-      "150": "EZT",
-      "151": "EUP",
-      "152": "PEU",
-      "153": "VAM",
-      "154": "LAR",
-      "155": "ARI",
-      "156": "ABL",
-      "157": "ART",
-      "158": "CLM",
-      "159": "ELM",
-      "160": "HRE",
-      "161": "LPR",
-      "162": "EPL",
-      "163": "TEO",
-      "164": "RVE",
-      "165": "GHE",
-      "166": "GTR",
-      "167": "GMA",
-      "168": "GMC",
-      "169": "GTW",
-      "170": "GPH",
-      "171": "GTH",
-      "172": "GJU",
-      "173": "GBA",
-      "174": "AJA",
-      "175": "WJC",
-      "176": "GLS",
-      "177": "CNC",
-      "178": "TPC",
-      "179": "IXN",
-      "180": "IXP",
-      "181": "IXT",
-      "182": "BAK",
-      "183": "MAP",
-      "184": "XXA",
-      "185": "XXB",
-      "186": "XXC",
-      "187": "XXD",
-      "188": "XXE",
-      "189": "XXF",
-      "190": "XXG"
+      "1": "GEN",
+      "2": "EXO",
+      "3": "LEV",
+      "4": "NUM",
+      "5": "DEU",
+      "6": "JOS",
+      "7": "JDG",
+      "8": "RUT",
+      "9": "SA1",
+      "10": "SA2",
+      "11": "KI1",
+      "12": "KI2",
+      "13": "CH1",
+      "14": "CH2",
+      "15": "MAN",
+      "16": "EZR",
+      "17": "NEH",
+      "18": "GES",
+      "19": "TOB",
+      "20": "JDT",
+      "21": "EST",
+      "22": "JOB",
+      "23": "PSA",
+      "24": "PRO",
+      "25": "ECC",
+      "26": "SNG",
+      "27": "WIS",
+      "28": "SIR",
+      "29": "ISA",
+      "30": "JER",
+      "31": "LAM",
+      "32": "LJE",
+      "33": "BAR",
+      "34": "EZE",
+      "35": "DAN",
+      "36": "HOS",
+      "37": "JOL",
+      "38": "AMO",
+      "39": "OBA",
+      "40": "JNA",
+      "41": "MIC",
+      "42": "NAH",
+      "43": "HAB",
+      "44": "ZEP",
+      "45": "HAG",
+      "46": "ZEC",
+      "47": "MAL",
+      "48": "MA1",
+      "49": "MA2",
+      "50": "MA3",
+      "51": "LES",
+      "52": "MAT",
+      "53": "MRK",
+      "54": "LUK",
+      "55": "JHN",
+      "56": "ACT",
+      "57": "JAM",
+      "58": "PE1",
+      "59": "PE2",
+      "60": "JN1",
+      "61": "JN2",
+      "62": "JN3",
+      "63": "JDE",
+      "64": "ROM",
+      "65": "CO1",
+      "66": "CO2",
+      "67": "GAL",
+      "68": "EPH",
+      "69": "PHP",
+      "70": "COL",
+      "71": "TH1",
+      "72": "TH2",
+      "73": "TI1",
+      "74": "TI2",
+      "75": "TIT",
+      "76": "PHM",
+      "77": "HEB",
+      "78": "REV"
+    }
+  ],
+  "SyriacNewTestament": [
+    {
+      "MAT": 1,
+      "MRK": 2,
+      "LUK": 3,
+      "JHN": 4,
+      "ACT": 5,
+      "JAM": 6,
+      "PE1": 7,
+      "JN1": 8,
+      "ROM": 9,
+      "CO1": 10,
+      "CO2": 11,
+      "GAL": 12,
+      "EPH": 13,
+      "PHP": 14,
+      "COL": 15,
+      "TH1": 16,
+      "TH2": 17,
+      "TI1": 18,
+      "TI2": 19,
+      "TIT": 20,
+      "PHM": 21,
+      "HEB": 22,
+      "PE2": 23,
+      "JN2": 24,
+      "JN3": 25,
+      "JDE": 26,
+      "REV": 27
+    },
+    {
+      "1": "MAT",
+      "2": "MRK",
+      "3": "LUK",
+      "4": "JHN",
+      "5": "ACT",
+      "6": "JAM",
+      "7": "PE1",
+      "8": "JN1",
+      "9": "ROM",
+      "10": "CO1",
+      "11": "CO2",
+      "12": "GAL",
+      "13": "EPH",
+      "14": "PHP",
+      "15": "COL",
+      "16": "TH1",
+      "17": "TH2",
+      "18": "TI1",
+      "19": "TI2",
+      "20": "TIT",
+      "21": "PHM",
+      "22": "HEB",
+      "23": "PE2",
+      "24": "JN2",
+      "25": "JN3",
+      "26": "JDE",
+      "27": "REV"
+    }
+  ],
+  "VulgateBible": [
+    {
+      "GEN": 1,
+      "EXO": 2,
+      "LEV": 3,
+      "NUM": 4,
+      "DEU": 5,
+      "JOS": 6,
+      "JDG": 7,
+      "RUT": 8,
+      "SA1": 9,
+      "SA2": 10,
+      "KI1": 11,
+      "KI2": 12,
+      "CH1": 13,
+      "CH2": 14,
+      "EZR": 15,
+      "NEH": 16,
+      "TOB": 17,
+      "JDT": 18,
+      "EST": 19,
+      "JOB": 20,
+      "PSA": 21,
+      "PRO": 22,
+      "ECC": 23,
+      "SNG": 24,
+      "WIS": 25,
+      "SIR": 26,
+      "ISA": 27,
+      "JER": 28,
+      "LAM": 29,
+      "BAR": 30,
+      "EZE": 31,
+      "DAN": 32,
+      "HOS": 33,
+      "JOL": 34,
+      "AMO": 35,
+      "OBA": 36,
+      "JNA": 37,
+      "MIC": 38,
+      "NAH": 39,
+      "HAB": 40,
+      "ZEP": 41,
+      "HAG": 42,
+      "ZEC": 43,
+      "MAL": 44,
+      "MA1": 45,
+      "MA2": 46,
+      "MAT": 47,
+      "MRK": 48,
+      "LUK": 49,
+      "JHN": 50,
+      "ACT": 51,
+      "ROM": 52,
+      "CO1": 53,
+      "CO2": 54,
+      "GAL": 55,
+      "EPH": 56,
+      "PHP": 57,
+      "COL": 58,
+      "TH1": 59,
+      "TH2": 60,
+      "TI1": 61,
+      "TI2": 62,
+      "TIT": 63,
+      "PHM": 64,
+      "HEB": 65,
+      "JAM": 66,
+      "PE1": 67,
+      "PE2": 68,
+      "JN1": 69,
+      "JN2": 70,
+      "JN3": 71,
+      "JDE": 72,
+      "REV": 73,
+      "MAN": 74,
+      "GES": 75,
+      "LES": 76,
+      "PSS": 77,
+      "LAO": 78
+    },
+    {
+      "1": "GEN",
+      "2": "EXO",
+      "3": "LEV",
+      "4": "NUM",
+      "5": "DEU",
+      "6": "JOS",
+      "7": "JDG",
+      "8": "RUT",
+      "9": "SA1",
+      "10": "SA2",
+      "11": "KI1",
+      "12": "KI2",
+      "13": "CH1",
+      "14": "CH2",
+      "15": "EZR",
+      "16": "NEH",
+      "17": "TOB",
+      "18": "JDT",
+      "19": "EST",
+      "20": "JOB",
+      "21": "PSA",
+      "22": "PRO",
+      "23": "ECC",
+      "24": "SNG",
+      "25": "WIS",
+      "26": "SIR",
+      "27": "ISA",
+      "28": "JER",
+      "29": "LAM",
+      "30": "BAR",
+      "31": "EZE",
+      "32": "DAN",
+      "33": "HOS",
+      "34": "JOL",
+      "35": "AMO",
+      "36": "OBA",
+      "37": "JNA",
+      "38": "MIC",
+      "39": "NAH",
+      "40": "HAB",
+      "41": "ZEP",
+      "42": "HAG",
+      "43": "ZEC",
+      "44": "MAL",
+      "45": "MA1",
+      "46": "MA2",
+      "47": "MAT",
+      "48": "MRK",
+      "49": "LUK",
+      "50": "JHN",
+      "51": "ACT",
+      "52": "ROM",
+      "53": "CO1",
+      "54": "CO2",
+      "55": "GAL",
+      "56": "EPH",
+      "57": "PHP",
+      "58": "COL",
+      "59": "TH1",
+      "60": "TH2",
+      "61": "TI1",
+      "62": "TI2",
+      "63": "TIT",
+      "64": "PHM",
+      "65": "HEB",
+      "66": "JAM",
+      "67": "PE1",
+      "68": "PE2",
+      "69": "JN1",
+      "70": "JN2",
+      "71": "JN3",
+      "72": "JDE",
+      "73": "REV",
+      "74": "MAN",
+      "75": "GES",
+      "76": "LES",
+      "77": "PSS",
+      "78": "LAO"
     }
   ]
 }
\ No newline at end of file
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleBookOrders_Tables.pickle
index 735b11d6a31565dc1827d768cfdb7c1f1fd3847c..7d94b955c8d647b88d3d046886934e174a8c67e8 100644
GIT binary patch
delta 6250
zcmYM&XLwX)0)}BSGwGT1-g`m<351?dLg;=JrK=zypr0>Q1Q7*>-m9UhfC@-Qg|Shs
zYuR1hVpl}5AhvaF*k!*5xvtHh`+Cph*O_zXIWwpChCH`7BzB%}<IA;8F8$5fP#!!{
zeK9n+-_toHV6L)*%s@NX46;MaU^~<dvBS(zJKPMjSDWGX8gsS1)?8ypm}~7wGs0eH
zM%q#4Iy>5ovSZ9>d%YQB$C~TyI5XCcH{<LLX1u-8++eM_(cWaNmAT1IFtQWP1Ut!0
zw3E#wJH<@4Q_U26vzclG)6C8G7BkIGH@DasX1cxA%&;@ft@buE)6O!t+1t%5dxyE*
z&Ng@0IcBz<Yv$O1nQP~nfSqsV*#&04U1%2AMP{L0Y!=xiX0csrme^%xsa<ZC*%fBF
zU1?U>Rc57KZC2SeX0=^w*4TAstzB={1?-(>y=^pi+6|`BZZsS0CbQ9QHk<4gv)SHd
zw%EJPUG^Sxx7}*)vD?g6yWMQF_nPhYK69_V-`r<+nEUNcv%~H(JM9Bzm)&h1uzSpI
zyVvZo`^;Xu-|Vvo%zk^&9I%JXLHnRNWFImQ+K0_U_OPjY*d8&5ZO|OCkC>o+)I4Gz
zGmqNG&13cn^SC`~p0LNvQG47RvnR}Pd(xb+r_4$Fq&a1uYFwN0Yh!Jcyfc<;XzXjU
zg3lLccmnog<FTI@uRUjc_EQsT&zms&nF+U_n+W@biL_suDEpO(w*N6P_G{y}|247p
z8xv>0HSzX4lVHC$iS`GRWG|Rx`=d#*Kbchfvq`hRm~{KA$*{kfO#8dZvVWLtd(q^m
zNl23>CRZVlr+^3Z<%I(IpirSuq%bH}IFu*?N)-uZih^=QLsP{-h5S&dSZJm=Xs&pu
zQUX*f5n3n-S}Hk!HA;b2N`=-+gEmTsw#tBZ%7pgHf)2`tTIE2Ua-pO0pp){UvkIV#
z3ZY&_&{f6Ipc03B8&>&)ee*|q0u>zfs1m$t20k^1P*p*gsv%r0AVMu6QZ*2zRuHY$
z5TiEWS6hfxJBU+zh*t+lP%R{?4wBUI(n&~GCuWK|L#nz!n(854T_Hmakg0BvrS6ce
z9+0D+kgHyhr{0jSK2V@5pil;i)EA1?4@%TOB;YL70A`u4gmPU4O*IfIGzcm+7@BDa
zG}ln5(lDsjaA={cp{1^Y8eI#mGy+;{B(%|W&{m_MokoW=3Gl{_VRq2<P^+;}r*Y6x
z<DrvofX=!Ry2wJkZi227G-v{J(?sa5Nzg-+p{J%mFHMEsx*7Utn&Z+PIln%=@$0Cw
z0nOwEk8T66W`R$)L#Xb6FwKT=&4CEbg-Bg`7o#+f6|MOYqXppCLWtEOh|^+-*Aht3
zQb^P?NK%L8n5-3$qLq-URgk9Dkghe5p|y~yb&#d?jl*Nk1~xG~+6-Q80iW)IP~8n-
zx(C9w6(Y0^BDEc&bT35fK8Vr%;MWd_)lP`hE{N9ykf7a=s6CLRy``9}eUPI4kg5Za
zrh|~KLypGt-ZKFm;eba$@ahrp=}`#PV-TjtAzV*DgpNX_jzN@;L$ppnj81}Iryy2O
zLY$t0cs&gXdIl2pEF`JoIZW1HAVtqZs$PIJy$I=g$>BaG4##fw1oR5WJo*QC^-u8W
zUl6K)LzrHLaJ>c*dL1J521Myih}K&Wqqo7YcOX{pLYz)RyxxNZoq<HX4@nAqfXO-w
zDf$pn^%11$V@TI0kfC#ssZSwG=OJ64L5@C$Tzvs~`V#W>6%^<{P^hn=NdJXmeFG)>
z_R`f|s_&R(`X0*l12okIsL+p4sh^;keun1y1*-HbRO>frq2HmU{(u@?gjQ<eakN$l
zw2=qe$_wq}^Y9tfUZKnm3WHjOL!Ba^qavY`qM);)p^IXmUViARSZGijbW=QZR|51<
zBJ@-e^inePRtoe{s;5a!6LW>qm`3T)R~gVxnb2QZFhJRGrE(m>Pa=kd1XRcokBY#n
zV(_U1LRAW3DuZy9Lxh?_q$(gvl@P6F5ToYcR~5vn8sgLf;?)uoR0D}>1@5|Ojmc^Q
zDQXL;Y6od*59#Uv8LEX$)j^gzLbf_VjyglGx<H=lAzxjgKn+l+ZcwD|P^=zMqMnz|
zb*XwW%hcNwJnav70{xgC^#`v8fKOLKsIG!A4TNwFf(Q+UNDYA~4TWe8gBT45zpjQ@
zT?28t7UDGm5;PJLbsZ#WQ~;AT8d5X{QguC~X)L5`9As!bWa<XU(v6TU3pu(8awW*q
z1jyG!D9|J*)MO~q6e!kIDACQAF6L5AW0vU_DA#mosu@tBTcJ`jp_y)j=9&dnx*e)@
z2ei;^XsJ0+qq)$^J=Qr|YaX=Gd}yl$&`t|Ie+G9Evx62xt(HKYmO@7@gHBowowWkG
zXeHEZ6?D~VXwVwyrnS&r>!63$Lr>iaz0?T3wE_BQqa(@POPiQRo1w3^c!K-NhlK>T
zF+JK2Ufl~m-3Ot%AHuW)!nG43v<o8j07PjwL~9SkXfOD+4`Q_+;&cGwbr2GC2om)m
zB<Z2c7skWP6di_C9f33jAzhC^h8~4XJqB5N9J2KU<mf2m>KNqdIOOXD6zC)r>J${|
zNhsD+P@<<jerKtkVV3FH;5Rt~LIN+cJbDSd`YZVKHwe|=AxtkrxL$z>{R1NPPl(dL
zAX@*17`+O9y#}#*9pdx`#OqB+&|8qGw;@UITs|f5GE;OKQuQ9B=?tXneaO%Ukg2nf
zr4J!nA3=^jhFpCDc{&IA`V<Ou9t!mt6zOv)))!EsFFi5NQhntn-<#(5Ob*6p?C=D>
z<#ms~1FyaZpMHQ)U4StC2;uq(BJ?vv>KBO8uMn-@AV$A~Uw=TXE<&7|cpdQyfdqLV
zQC>)rFM!Dkg%pKBs=^^n5s<D($WRnyDjKpB1KILJj$$EKage8Y$X5asC=m*k1Vu`Q
zVx>TdQoVmZvZpc2ln&*}fTqfX3S~j1vZ0xBpt*9PN_kMNd}yHpXsJS|Q4zFKF|<|*
zv{5OvRT;EXx%backfzKIs(@NmLY<mHM>U5|s)Ej{hAwIW^=b)SRRaxb1>Mvdx~mQJ
zP+RD!cF;@hp|?6fAJsa#yHAihrcp=et4`2QouR+FzyQ_5mFfytsR0J68w^r+Z%~OR
zLIQo59$f)m8StqugsLBesXv5k07U3Yh}2aOrGXHwK@g+C;MWj{)li7jFo@T1NYK@g
zsB0ie*IvGoMle$}5>j;?q-hkSYcynN3}oth$kJHI);P$~c*xZakf$3VUls~<6BJ5N
zqzO>0iBO_RUh6E?WM-MBK)I$uQ{4;|ng*4+1)6C(G}jEM(ydUfnb1PFK}*eo8r=@9
zbO*H7>|k`|T2Ej;%cBM0)k5%T5rk?nglP$cYbiu%8ANJ1L}>*?YbC^J75KFpVzmb1
zv=-vE4idB;5_KmesqymJ-oQ-JMo85rNYiFW*A~doU684}Axrl_wzfi!wn478L!R!1
zeBB2Hx*rO)1B$d0inR+$^uXo&b~m$3d!Sr<p{e#kh4w?G4nQ*<gyuQ~ReBJr^$@hs
z!_ZQPp+-lbm4eV(k3bte3T^cmwA164@7pJs9ds0Gbqwls96IU*bka%atW(fMPeQ$(
zg06ZR8uScw)3eZB&p{9U1$ydv=%p8+w_b!kddX4X?%TgIjs6CG^>^r}m!ZF2@iul#
z`z`P)%cIx8tJlG&Hy~7RLYUryaJ>x?dIuu)E=1`xMC(0>(HZdTeTdZu5T~;cuMZ(X
zA3>r%h9rGbhsinzDf$#rbsp068KmoT$j}#%sV^Z*Upa!sp)1|D#cw&{`UI{|;Q9ov
zPvH6lu210l1g=lu`UI{|;Q9ovPvH6lu1`LP>l3&>f$I~vr+y#0K7s2KxITgF6SzKs
z>l3&>f$I~vK7s2KxITgF6SzKs>l3&>f$I~vK7s2~085nyu210l1g=lu`UI{|;Q9ov
zPvH6lu210l1g=lu`UI{|;Q9ovPvH6lu1~%{zb!Upx;}yH6SzKs>l3&>f$I~vK7s2K
zbX5(wK7s2KxITgF6SzKs>l3&>f$Nj6NjttR)-he5!1W1SpTPCW;htw^RJmXJ$7KBf
zm;TcO=K2~Vdz=dPGY3P0i~7725?oL}Hl*=F$KAn;wLgY5F6?qK(%*N+bUS|9n8}S}
zOtA4(T|?tX4QCpE>U*(qb?*zo1wErY!Kb_R35kdqG;8vdabqUBe;XAX*?(S0;|o2G
N2e)=Q7vh;w^*@tpVKe{$

delta 6247
zcmX}wb(B?g+s1L`Om}w|Gr#}?3^7A@Y(TNQk?mK(0Bk%aDqs#`E11}EZ0zpmdF*b%
zdcwr^-CtzA=bz8I_Bm@^>%QlA_StKmT%Yvb`lP%QQ!e<tr_YwxveoU0?()lGiQKet
zNxgTLey~@#a}W!636jHIgOqT$AT``QNDKD}(!)K2jBu|YGu%7K3ik=J!+nFCaK9io
z+&{<*4+!$Z`9VQ=U{Dw?2#UfmC=L$_N<xCt@Zg{<JR~R&7X}sKqD1?Mm9coZIO<pu
zbu5iKj*L2viaL&tI*y4tj*U8wi#m>vI+jHpCqy0bsN=+_<D{tL<f!A6sN>YA<Fu$_
zdDL-w)Nw}Cac0!9BB%^k236szpgKG&s0q&wYQuAay71hfK0GgI2+t4VjbU%l6s``M
z!wZ6za81w}UKsQZFACbii-Y#?lAvFBY0y8sEEo`89(06P1Ovk>gF)fiU~srD=nSt4
zhJ;rKL&Ix=Vd1qwS9o18JiI;_5v~tLhBpMG!W)C`@TQ<Ayg3*h-V%%nZw<zVw*}+E
z+k^4p9l?a~&QZa{FcC}&?+PY|cL!6#dxELqy}`8bzF>NIe=s9_Aeb3$2xf&320{2x
zFgtuWm=it{%nct+B-iYi)ca>9ozYw$MRR=|&Gkt%*Qe23p9PKK=h0Xjqp>zcV|@{g
z^<^~HSJ7Bs_a0sJdp!JKwDxbKwSO0_{rhO`KSXQ)F<Sdi(b_jhYyUY~`!CVje~s4u
zTeSAyqqYALt^Lnv?SBP@^hxT|CnzFGiit@H$x=#+l#wdsq)7$oQb~qXWs<4YWc7BG
zd>qd=#3+zt3MGXiNu^lQD3NqZC4(}_q+GJ7kZdX?hbqaXTJorod}^hDIw_=HifE8x
z8e6o4CMl&^%Gh$ToK{l>eUlRN>*BHa0Aq{}NoJs=Fi27vENOH~IzuFbp_0ik$)ZcL
z87?`DkX%Me9-}0mZYiKg3K=a$jFDo-#<hfTQp$KKV}g`3Q7V`ul}wf@rbsnYrG{xz
z%XFz@hSW1t8ki-G1k%K8X=aYJFjrdHCMh1-mu-!0%#(JulYVS3{n<eVu%mRalMG~M
z8N@C!m|dll-DC*6%TV@^VeBbg>?On5TSl;tjAY-WKJh-mDE2dUv%mCkfQ)9ojNw2T
z%K{lkDC0RuCV))jV41`rGMR-kg+(%zLuDF=$#f2v85|)qSsYOu%wmZ#V5!XJ$fU$I
z9S<hOk2A(NUXocRDV!jwZ27CDaiS@mlO%(aC6iMmi&G_=(<F!GlFR9m#~G5(nNq+C
zDP*M-u}X?LYwN){+gQpuQpUMb&UsS7`BF)*RIysBxj<@IBeh&8bzCI%Tr3S-B8^-s
zO<X3;TrMqKA+21w^<b<uwy{pyxk~zRwe;s28NjvD!F4i_>tzt@WiU5LCpXFvZjzzg
zEW@}(y0|rB>GIX9N+uq$aQ>o$_FXi0{!u&3U%aHZJabc=gdd7=mn3tyq;QX<a<8Ou
zpQLlYWblAwvO%(VP_lVQa(GyBc|`JfRPuRD3V2)!c|wYKQi>V>l$P+cl=6&}@vM~d
zoK*0<RPusU@uF1oQbaUV@7j5#y|tNRd!OsNHvWol#duYcc}-GyT~c{N(s)zSc}p^Q
zTQYe^vUpdrc~5e9Uvl|C^7v5l`A7=*SPJ<>iuhED`K((@_*_caC}nJta=wrXzLZM7
zk}AHIYQ9NI+|afm7XQ{5<2y;_dr9F3N##dL<0naHvt;nIWb%t-@vCI>o8<7j<no8)
z@u%eTmlV(^7Ewr&6cLkRlH*!Jij<NnWu!?t=~6+4RFWxGWJxvIQbUf^k}GxONj>?}
zK!G$;C`}YeGsV(EiL_E0`};mwW^AKe+NqF!R7!uUWB}FDL5&QgRt8ZggQ=HJ8e|BK
zGL$A6MzeI$BExBw5%iUjw8j3uPqrJo=_ft(m(dK6F?7gS2Ff@F$#@3K1Uh9RLu3*|
zWirEL3SBal;WCX8GM$k!gHbY*?ug0JeX_?GFj{6aM&>Y9<}yyUVZ3b11ewP~*^WuF
zJ(CkVwnjfVGfXjNN;0z~g+Nl7Eosb=bmmG1+ejwcN*41Zo9!fr?Io8TB##{>pPi(D
zou!anq=;RmnBBG>q}`3B>>*|BDdp@X73?jQ>?2j|E7j~LHS90793XYfmwFDA1{O#o
zp)_%jG=sEou(WbWEIqO>3uB4WyaloN5nhh5Sdv*HDJ+##j+8Wxl5~!i433dZj+HEq
zlWdNc9F|EgCrBP!2F>S0QvoMQAty@_r${lUZe7M{#!{9`8K+A*XGjHSN+m0#ij`8$
zDyiWtspV{`;~c5yTxsAuY2<uqqF0((EiGIit*qJlt-8?I#zoT3#nO*Uq(7I+04|db
zE|-B^A%nP52D4T=StmodN``W^4C5N<;#wKbbuxnMWhCpjeyeUUc5|cjaFdMYW*NgR
zGL~Cq9Jk4MZkGw%ArrY%CXtZI+$B@ETc&c4Oygde&V4e2`(-8%L?rto(Kw+xu{^6X
z7UvP)iSei;^O&UYxTNxgr17Mr^OR)pv}E#(Wbv$I^PJ@HyyWtN<nf~9^O6+svJ~<U
zDdL|}O#EM3!YfkBt5U{mQqJpA!5dP^n^MJFQq9{^!#h&TyHdw{QqTL+zz5REhtkAH
z(#*%w!Y9(or&|tVUp_Oo@wv3KQTnk-`tyYh;7jS?D;dbwGKg<vF#ncL{v$*9uMFjX
zGK_Dfi|=GO-^&Pokdgctn-e*TpN!pXmL7hV(flG~_*KU8n~dXk8P6Xwfj?y;f5{~J
zBqzRa+BqqnnjFO#X_8F3q>v%0WJ(%Yl1{c{kRzGoN)~yNO}^w%Ah{Gu9z~K*u@q1u
zg_KGWWl~IeTuZ2sQYxj4Dk-O0DyWf4YNd)gsit0PXpmYOrH&@4r&$_kkw#jjiN4ZI
zo3zj_t@KOIjqFQ*V;ch!PY*sP7Vk907$V6Gl@x|aDqWJsa7kx`WH3@P86{bCOEx`{
z!)VE6jN~y^@);)ujF&<tND&jIm`Ph#GTB(l6e(k>lrv2#m@bvfkSb<MHM69KKx&yS
zb<B}^=1K$GNF&=y6Z52*?WBe6rIj6$|9+6z(b&dL($3D(k6olcyUGA|lMZ&5f$SlJ
z*i#0xmvpkX3}GJ`%Dys;{iKWiWjF`O2<FR34ov?0L1KZin^1Z<NJfK<;b0ldAu^7I
zGM+^;fkR~?hsh)km&qI<Q&=ohSt8R|D$_YqW^k0u<miaL(SyV>#(-mGHpj^vj+ePC
zi-_)ucjWz*8s}uM#W+QhIaN|PO;TAdX`C+UoFN&UDVeO0ELKW3t0afBB$u-#k8>oS
zbESauq>%Hah+c_qh^w`P3#61aQpSZ+&P7te#Zt*7QpKfG&1F)<<x<NPQpc52&su3<
zoiuWlG;y^wbB(lct+aC8mZRF2>y2%!mv(NDe%vVixk(0avvhEa4CGcB#BDN|+oh8`
zWC(Z4P!ckXyQGV|WjOc92=0}U+_&YZj^ch}HxEb;8)P&O$`~G!u{<o}ctpnYs7&B7
znaJZZi6>+-Ps$XYlBql`(|AUv^Q_F^Iho1xTaM~1UN8o{D6@G<=J2x2<sY&Q|CDX{
zm(1f8*^XCbdtQ?rcwKhn4cUn|WoO=!U3gn|<sI3LcV&0pi--q%@V;?RK9IfmQ1<2{
z*@us1Up|rj_*C}iGdY0IWj-6_KsLz&zL1bF<siNi_*xF;8##o3%R>Gm@kRVs59NPy
z7~jg_d?!cny)5PjS;CL9l%M2CHp@}`EJyQ;9K)}2EWgQd{4U4yhb-eyIf1_<PM?&B
z6XPW5NyOx2lI0Xq<Wy4SG}2@_>2f+5at4`lCRwtAY*|T;tRh#=B2UgHU(TUG&ZSV!
zqe#vtUaY;8$ZAUE0?K3!<#HhvauJnsF;#L2)p98{av8O9IdyUc^>QT*vX(|!N0VGd
zvs_J!TtjPIucfbCN1I$vyR4_5+(3W1kpXfO9da`R<rW6Xtqhji=#<+TB6l!U?qrxG
z=#sk_E_X9R?qOug@W^`^WxS7Wxt|_+fYGvnG4dc|<srt&!@V!}R3_F=-JI0>>y+yf
zdu+Ec>FPDplM)wB-ajd^X2yF-iNoj4Ov?QKf4B6mo7}(mqVX$w*Uj6ISTH*))_Yj6
iIq}lO=aUjm6K+oGT|Dd0#D;A)CM7oYEK7+k9rS-Vw_joa

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.json
index b669463..5ca85c4 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.json
@@ -2,6 +2,9 @@
   "referenceNumberDict": {
     "1": {
       "referenceAbbreviation": "GEN",
+      "originalLanguageCode": "hbo",
+      "bookName": "בְּרֵאשִׁית",
+      "shortAbbreviation": "Ge",
       "SBLAbbreviation": "Gen",
       "OSISAbbreviation": "Gen",
       "SwordAbbreviation": "Gen",
@@ -11,16 +14,21 @@
       "USXNumberString": "001",
       "UnboundCodeString": "01O",
       "BibleditNumberString": "1",
+      "LogosNumberString": "1",
+      "LogosAbbreviation": "Ge",
       "NETBibleAbbreviation": "Gen",
       "DrupalBibleAbbreviation": "Gen",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "50",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Genesis / 1 Moses",
+      "bookNameEnglishGuide": "Genesis / 1 Moses",
       "typicalSection": "OT"
     },
     "2": {
       "referenceAbbreviation": "EXO",
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמֹות",
+      "shortAbbreviation": "Ex",
       "SBLAbbreviation": "Exod",
       "OSISAbbreviation": "Exod",
       "SwordAbbreviation": "Exod",
@@ -30,16 +38,21 @@
       "USXNumberString": "002",
       "UnboundCodeString": "02O",
       "BibleditNumberString": "2",
+      "LogosNumberString": "2",
+      "LogosAbbreviation": "Ex",
       "NETBibleAbbreviation": "Exo",
       "DrupalBibleAbbreviation": "Exo",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "40",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Exodus / 2 Moses",
+      "bookNameEnglishGuide": "Exodus / 2 Moses",
       "typicalSection": "OT"
     },
     "3": {
       "referenceAbbreviation": "LEV",
+      "originalLanguageCode": "hbo",
+      "bookName": "וַיִּקְרָא",
+      "shortAbbreviation": "Le",
       "SBLAbbreviation": "Lev",
       "OSISAbbreviation": "Lev",
       "SwordAbbreviation": "Lev",
@@ -49,16 +62,21 @@
       "USXNumberString": "003",
       "UnboundCodeString": "03O",
       "BibleditNumberString": "3",
+      "LogosNumberString": "3",
+      "LogosAbbreviation": "Le",
       "NETBibleAbbreviation": "Lev",
       "DrupalBibleAbbreviation": "Lev",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "27",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Leviticus / 3 Moses",
+      "bookNameEnglishGuide": "Leviticus / 3 Moses",
       "typicalSection": "OT"
     },
     "4": {
       "referenceAbbreviation": "NUM",
+      "originalLanguageCode": "hbo",
+      "bookName": "בְּמִדְבַּר",
+      "shortAbbreviation": "Nu",
       "SBLAbbreviation": "Num",
       "OSISAbbreviation": "Num",
       "SwordAbbreviation": "Num",
@@ -68,16 +86,21 @@
       "USXNumberString": "004",
       "UnboundCodeString": "04O",
       "BibleditNumberString": "4",
+      "LogosNumberString": "4",
+      "LogosAbbreviation": "Nu",
       "NETBibleAbbreviation": "Num",
       "DrupalBibleAbbreviation": "Num",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Numbers / 4 Moses",
+      "bookNameEnglishGuide": "Numbers / 4 Moses",
       "typicalSection": "OT"
     },
     "5": {
       "referenceAbbreviation": "DEU",
+      "originalLanguageCode": "hbo",
+      "bookName": "דְּבָרִים",
+      "shortAbbreviation": "Dt",
       "SBLAbbreviation": "Deut",
       "OSISAbbreviation": "Deut",
       "SwordAbbreviation": "Deut",
@@ -87,16 +110,21 @@
       "USXNumberString": "005",
       "UnboundCodeString": "05O",
       "BibleditNumberString": "5",
+      "LogosNumberString": "5",
+      "LogosAbbreviation": "Dt",
       "NETBibleAbbreviation": "Deu",
       "DrupalBibleAbbreviation": "Deu",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "34",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Deuteronomy / 5 Moses",
+      "bookNameEnglishGuide": "Deuteronomy / 5 Moses",
       "typicalSection": "OT"
     },
     "6": {
       "referenceAbbreviation": "JOS",
+      "originalLanguageCode": "hbo",
+      "bookName": "יְהוֹשֻעַ",
+      "shortAbbreviation": "Jos",
       "SBLAbbreviation": "Josh",
       "OSISAbbreviation": "Josh",
       "SwordAbbreviation": "Josh",
@@ -106,6 +134,8 @@
       "USXNumberString": "006",
       "UnboundCodeString": "06O",
       "BibleditNumberString": "6",
+      "LogosNumberString": "6",
+      "LogosAbbreviation": "Jos",
       "NETBibleAbbreviation": "Jos",
       "DrupalBibleAbbreviation": "Jos",
       "ByzantineAbbreviation": null,
@@ -113,11 +143,14 @@
       "possibleAlternativeBooks": [
         "JSA"
       ],
-      "nameEnglish": "Joshua / Joshua son of Nun",
+      "bookNameEnglishGuide": "Joshua / Joshua son of Nun",
       "typicalSection": "OT"
     },
     "7": {
       "referenceAbbreviation": "JDG",
+      "originalLanguageCode": "hbo",
+      "bookName": "שֹׁפְטִים",
+      "shortAbbreviation": "Jdg",
       "SBLAbbreviation": "Judg",
       "OSISAbbreviation": "Judg",
       "SwordAbbreviation": "Judg",
@@ -127,6 +160,8 @@
       "USXNumberString": "007",
       "UnboundCodeString": "07O",
       "BibleditNumberString": "7",
+      "LogosNumberString": "7",
+      "LogosAbbreviation": "Jdg",
       "NETBibleAbbreviation": "Jdg",
       "DrupalBibleAbbreviation": "Jug",
       "ByzantineAbbreviation": null,
@@ -134,11 +169,14 @@
       "possibleAlternativeBooks": [
         "JGB"
       ],
-      "nameEnglish": "Judges",
+      "bookNameEnglishGuide": "Judges",
       "typicalSection": "OT"
     },
     "8": {
       "referenceAbbreviation": "RUT",
+      "originalLanguageCode": "hbo",
+      "bookName": "רוּת",
+      "shortAbbreviation": "Ru",
       "SBLAbbreviation": "Ruth",
       "OSISAbbreviation": "Ruth",
       "SwordAbbreviation": "Ruth",
@@ -148,16 +186,21 @@
       "USXNumberString": "008",
       "UnboundCodeString": "08O",
       "BibleditNumberString": "8",
+      "LogosNumberString": "8",
+      "LogosAbbreviation": "Ru",
       "NETBibleAbbreviation": "Rut",
       "DrupalBibleAbbreviation": "Rut",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ruth",
+      "bookNameEnglishGuide": "Ruth",
       "typicalSection": "OT"
     },
     "9": {
       "referenceAbbreviation": "SA1",
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל א",
+      "shortAbbreviation": "1Sa",
       "SBLAbbreviation": "1 Sam",
       "OSISAbbreviation": "1Sam",
       "SwordAbbreviation": "1Sam",
@@ -167,16 +210,21 @@
       "USXNumberString": "009",
       "UnboundCodeString": "09O",
       "BibleditNumberString": "9",
+      "LogosNumberString": "9",
+      "LogosAbbreviation": "1Sa",
       "NETBibleAbbreviation": "1Sa",
       "DrupalBibleAbbreviation": "1Sm",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Samuel / 1 Kingdoms / 1 Kings",
+      "bookNameEnglishGuide": "1 Samuel / 1 Kingdoms / 1 Kings",
       "typicalSection": "OT"
     },
     "10": {
       "referenceAbbreviation": "SA2",
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל ב",
+      "shortAbbreviation": "2Sa",
       "SBLAbbreviation": "2 Sam",
       "OSISAbbreviation": "2Sam",
       "SwordAbbreviation": "2Sam",
@@ -186,16 +234,21 @@
       "USXNumberString": "010",
       "UnboundCodeString": "10O",
       "BibleditNumberString": "10",
+      "LogosNumberString": "10",
+      "LogosAbbreviation": "2Sa",
       "NETBibleAbbreviation": "2Sa",
       "DrupalBibleAbbreviation": "2Sm",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "24",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Samuel / 2 Kingdoms / 2 Kings",
+      "bookNameEnglishGuide": "2 Samuel / 2 Kingdoms / 2 Kings",
       "typicalSection": "OT"
     },
     "11": {
       "referenceAbbreviation": "KI1",
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים א",
+      "shortAbbreviation": "1Ki",
       "SBLAbbreviation": "1 Kgs",
       "OSISAbbreviation": "1Kgs",
       "SwordAbbreviation": "1Kgs",
@@ -205,16 +258,21 @@
       "USXNumberString": "011",
       "UnboundCodeString": "11O",
       "BibleditNumberString": "11",
+      "LogosNumberString": "11",
+      "LogosAbbreviation": "1Ki",
       "NETBibleAbbreviation": "1Ki",
       "DrupalBibleAbbreviation": "1Kg",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "22",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Kings / 3 Kingdoms / 3 Kings",
+      "bookNameEnglishGuide": "1 Kings / 3 Kingdoms / 3 Kings",
       "typicalSection": "OT"
     },
     "12": {
       "referenceAbbreviation": "KI2",
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים ב",
+      "shortAbbreviation": "2Ki",
       "SBLAbbreviation": "2 Kgs",
       "OSISAbbreviation": "2Kgs",
       "SwordAbbreviation": "2Kgs",
@@ -224,16 +282,21 @@
       "USXNumberString": "012",
       "UnboundCodeString": "12O",
       "BibleditNumberString": "12",
+      "LogosNumberString": "12",
+      "LogosAbbreviation": "2Ki",
       "NETBibleAbbreviation": "2Ki",
       "DrupalBibleAbbreviation": "2Kg",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "25",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Kings / 4 Kingdoms / 4 Kings",
+      "bookNameEnglishGuide": "2 Kings / 4 Kingdoms / 4 Kings",
       "typicalSection": "OT"
     },
     "13": {
       "referenceAbbreviation": "CH1",
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים א",
+      "shortAbbreviation": "1Ch",
       "SBLAbbreviation": "1 Chr",
       "OSISAbbreviation": "1Chr",
       "SwordAbbreviation": "1Chr",
@@ -243,16 +306,21 @@
       "USXNumberString": "013",
       "UnboundCodeString": "13O",
       "BibleditNumberString": "13",
+      "LogosNumberString": "13",
+      "LogosAbbreviation": "1Ch",
       "NETBibleAbbreviation": "1Ch",
       "DrupalBibleAbbreviation": "1Ch",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "29",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Chronicles / 1 Paralipomenon",
+      "bookNameEnglishGuide": "1 Chronicles / 1 Paralipomenon",
       "typicalSection": "OT"
     },
     "14": {
       "referenceAbbreviation": "CH2",
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים ב",
+      "shortAbbreviation": "2Ch",
       "SBLAbbreviation": "2 Chr",
       "OSISAbbreviation": "2Chr",
       "SwordAbbreviation": "2Chr",
@@ -262,16 +330,21 @@
       "USXNumberString": "014",
       "UnboundCodeString": "14O",
       "BibleditNumberString": "14",
+      "LogosNumberString": "14",
+      "LogosAbbreviation": "2Ch",
       "NETBibleAbbreviation": "2Ch",
       "DrupalBibleAbbreviation": "2Ch",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36,37",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Chronicles / 2 Paralipomenon",
+      "bookNameEnglishGuide": "2 Chronicles / 2 Paralipomenon",
       "typicalSection": "OT"
     },
     "15": {
       "referenceAbbreviation": "EZR",
+      "originalLanguageCode": "hbo",
+      "bookName": "עֶזְרָא",
+      "shortAbbreviation": "Ezr",
       "SBLAbbreviation": "Ezra",
       "OSISAbbreviation": "Ezra",
       "SwordAbbreviation": "Ezra",
@@ -281,6 +354,8 @@
       "USXNumberString": "015",
       "UnboundCodeString": "15O",
       "BibleditNumberString": "15",
+      "LogosNumberString": "15",
+      "LogosAbbreviation": "Ezr",
       "NETBibleAbbreviation": "Ezr",
       "DrupalBibleAbbreviation": "Ezr",
       "ByzantineAbbreviation": null,
@@ -288,11 +363,14 @@
       "possibleAlternativeBooks": [
         "EZN"
       ],
-      "nameEnglish": "Ezra / 1 Ezra / 1 Esdras",
+      "bookNameEnglishGuide": "Ezra / 1 Ezra / 1 Esdras",
       "typicalSection": "OT"
     },
     "16": {
       "referenceAbbreviation": "NEH",
+      "originalLanguageCode": "hbo",
+      "bookName": "נְחֶמְיָה",
+      "shortAbbreviation": "Ne",
       "SBLAbbreviation": "Neh",
       "OSISAbbreviation": "Neh",
       "SwordAbbreviation": "Neh",
@@ -302,6 +380,8 @@
       "USXNumberString": "016",
       "UnboundCodeString": "16O",
       "BibleditNumberString": "16",
+      "LogosNumberString": "16",
+      "LogosAbbreviation": "Ne",
       "NETBibleAbbreviation": "Neh",
       "DrupalBibleAbbreviation": "Neh",
       "ByzantineAbbreviation": null,
@@ -309,11 +389,14 @@
       "possibleAlternativeBooks": [
         "EZN"
       ],
-      "nameEnglish": "Nehemiah / 2 Ezra / 2 Esdras",
+      "bookNameEnglishGuide": "Nehemiah / 2 Ezra / 2 Esdras",
       "typicalSection": "OT"
     },
     "17": {
       "referenceAbbreviation": "EST",
+      "originalLanguageCode": "hbo",
+      "bookName": "אֶסְתֵר",
+      "shortAbbreviation": "Es",
       "SBLAbbreviation": "Esth",
       "OSISAbbreviation": "Esth",
       "SwordAbbreviation": "Esth",
@@ -323,6 +406,8 @@
       "USXNumberString": "017",
       "UnboundCodeString": "17O",
       "BibleditNumberString": "17",
+      "LogosNumberString": "17",
+      "LogosAbbreviation": "Es",
       "NETBibleAbbreviation": "Est",
       "DrupalBibleAbbreviation": "Est",
       "ByzantineAbbreviation": null,
@@ -332,11 +417,14 @@
         "ESA",
         "ESC"
       ],
-      "nameEnglish": "Esther",
+      "bookNameEnglishGuide": "Esther",
       "typicalSection": "OT"
     },
     "18": {
       "referenceAbbreviation": "JOB",
+      "originalLanguageCode": "hbo",
+      "bookName": "אִיּוֹב",
+      "shortAbbreviation": "Jb",
       "SBLAbbreviation": "Job",
       "OSISAbbreviation": "Job",
       "SwordAbbreviation": "Job",
@@ -346,16 +434,21 @@
       "USXNumberString": "018",
       "UnboundCodeString": "18O",
       "BibleditNumberString": "18",
+      "LogosNumberString": "18",
+      "LogosAbbreviation": "Job",
       "NETBibleAbbreviation": "Job",
       "DrupalBibleAbbreviation": "Job",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "42",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Job",
+      "bookNameEnglishGuide": "Job",
       "typicalSection": "OT"
     },
     "19": {
       "referenceAbbreviation": "PSA",
+      "originalLanguageCode": "hbo",
+      "bookName": "תְהִלִּים",
+      "shortAbbreviation": "Ps",
       "SBLAbbreviation": "Ps",
       "OSISAbbreviation": "Ps",
       "SwordAbbreviation": "Ps",
@@ -365,6 +458,8 @@
       "USXNumberString": "019",
       "UnboundCodeString": "19O",
       "BibleditNumberString": "19",
+      "LogosNumberString": "19",
+      "LogosAbbreviation": "Ps",
       "NETBibleAbbreviation": "Psa",
       "DrupalBibleAbbreviation": "Ps",
       "ByzantineAbbreviation": null,
@@ -376,11 +471,14 @@
         "PB4",
         "PB5"
       ],
-      "nameEnglish": "Psalms / Gallicanum / Psalms A",
+      "bookNameEnglishGuide": "Psalms / Gallicanum / Psalms A",
       "typicalSection": "OT"
     },
     "20": {
       "referenceAbbreviation": "PRO",
+      "originalLanguageCode": "hbo",
+      "bookName": "מִשְׁלֵי",
+      "shortAbbreviation": "Pr",
       "SBLAbbreviation": "Prov",
       "OSISAbbreviation": "Prov",
       "SwordAbbreviation": "Prov",
@@ -390,16 +488,21 @@
       "USXNumberString": "020",
       "UnboundCodeString": "20O",
       "BibleditNumberString": "20",
+      "LogosNumberString": "20",
+      "LogosAbbreviation": "Pr",
       "NETBibleAbbreviation": "Pro",
       "DrupalBibleAbbreviation": "Pro",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Proverbs",
+      "bookNameEnglishGuide": "Proverbs",
       "typicalSection": "OT"
     },
     "21": {
       "referenceAbbreviation": "ECC",
+      "originalLanguageCode": "hbo",
+      "bookName": "קֹהֶלֶת",
+      "shortAbbreviation": "Ec",
       "SBLAbbreviation": "Eccl",
       "OSISAbbreviation": "Eccl",
       "SwordAbbreviation": "Eccl",
@@ -409,16 +512,21 @@
       "USXNumberString": "021",
       "UnboundCodeString": "21O",
       "BibleditNumberString": "21",
+      "LogosNumberString": "21",
+      "LogosAbbreviation": "Ec",
       "NETBibleAbbreviation": "Ecc",
       "DrupalBibleAbbreviation": "Ecc",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "12",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ecclesiastes / Qoholeth",
+      "bookNameEnglishGuide": "Ecclesiastes / Qoholeth",
       "typicalSection": "OT"
     },
     "22": {
       "referenceAbbreviation": "SNG",
+      "originalLanguageCode": "hbo",
+      "bookName": "שִׁיר הַשִּׁירִים",
+      "shortAbbreviation": "So",
       "SBLAbbreviation": "Song",
       "OSISAbbreviation": "Song",
       "SwordAbbreviation": "Song",
@@ -428,16 +536,21 @@
       "USXNumberString": "022",
       "UnboundCodeString": "22O",
       "BibleditNumberString": "22",
+      "LogosNumberString": "22",
+      "LogosAbbreviation": "So",
       "NETBibleAbbreviation": "Sos",
       "DrupalBibleAbbreviation": "Son",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "8",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Song of Solomon / Song of Songs / Canticles / Canticle of Canticles",
+      "bookNameEnglishGuide": "Song of Solomon / Song of Songs / Canticles / Canticle of Canticles",
       "typicalSection": "OT"
     },
     "23": {
       "referenceAbbreviation": "ISA",
+      "originalLanguageCode": "hbo",
+      "bookName": "יְשַׁעְיָהוּ",
+      "shortAbbreviation": "Is",
       "SBLAbbreviation": "Isa",
       "OSISAbbreviation": "Isa",
       "SwordAbbreviation": "Isa",
@@ -447,16 +560,21 @@
       "USXNumberString": "023",
       "UnboundCodeString": "23O",
       "BibleditNumberString": "23",
+      "LogosNumberString": "23",
+      "LogosAbbreviation": "Is",
       "NETBibleAbbreviation": "Isa",
       "DrupalBibleAbbreviation": "Isa",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "66",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Isaiah",
+      "bookNameEnglishGuide": "Isaiah",
       "typicalSection": "OT"
     },
     "24": {
       "referenceAbbreviation": "JER",
+      "originalLanguageCode": "hbo",
+      "bookName": "יִרְמְיָהוּ",
+      "shortAbbreviation": "Je",
       "SBLAbbreviation": "Jer",
       "OSISAbbreviation": "Jer",
       "SwordAbbreviation": "Jer",
@@ -466,16 +584,21 @@
       "USXNumberString": "024",
       "UnboundCodeString": "24O",
       "BibleditNumberString": "24",
+      "LogosNumberString": "24",
+      "LogosAbbreviation": "Je",
       "NETBibleAbbreviation": "Jer",
       "DrupalBibleAbbreviation": "Jer",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "52",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jeremiah",
+      "bookNameEnglishGuide": "Jeremiah",
       "typicalSection": "OT"
     },
     "25": {
       "referenceAbbreviation": "LAM",
+      "originalLanguageCode": "hbo",
+      "bookName": "אֵיכָה",
+      "shortAbbreviation": "La",
       "SBLAbbreviation": "Lam",
       "OSISAbbreviation": "Lam",
       "SwordAbbreviation": "Lam",
@@ -485,16 +608,21 @@
       "USXNumberString": "025",
       "UnboundCodeString": "25O",
       "BibleditNumberString": "25",
+      "LogosNumberString": "25",
+      "LogosAbbreviation": "La",
       "NETBibleAbbreviation": "Lam",
       "DrupalBibleAbbreviation": "Lam",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Lamentations / Lamentations of Jeremiah",
+      "bookNameEnglishGuide": "Lamentations / Lamentations of Jeremiah",
       "typicalSection": "OT"
     },
     "26": {
       "referenceAbbreviation": "EZE",
+      "originalLanguageCode": "hbo",
+      "bookName": "יְחֶזְקֵאל",
+      "shortAbbreviation": "Eze",
       "SBLAbbreviation": "Ezek",
       "OSISAbbreviation": "Ezek",
       "SwordAbbreviation": "Ezek",
@@ -504,16 +632,21 @@
       "USXNumberString": "026",
       "UnboundCodeString": "26O",
       "BibleditNumberString": "26",
+      "LogosNumberString": "26",
+      "LogosAbbreviation": "Eze",
       "NETBibleAbbreviation": "Eze",
       "DrupalBibleAbbreviation": "Eze",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "48",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ezekiel",
+      "bookNameEnglishGuide": "Ezekiel",
       "typicalSection": "OT"
     },
     "27": {
       "referenceAbbreviation": "DAN",
+      "originalLanguageCode": "hbo",
+      "bookName": "דָּנִיֵּאל",
+      "shortAbbreviation": "Da",
       "SBLAbbreviation": "Dan",
       "OSISAbbreviation": "Dan",
       "SwordAbbreviation": "Dan",
@@ -523,6 +656,8 @@
       "USXNumberString": "027",
       "UnboundCodeString": "27O",
       "BibleditNumberString": "27",
+      "LogosNumberString": "27",
+      "LogosAbbreviation": "Da",
       "NETBibleAbbreviation": "Dan",
       "DrupalBibleAbbreviation": "Dan",
       "ByzantineAbbreviation": null,
@@ -533,11 +668,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Daniel",
+      "bookNameEnglishGuide": "Daniel",
       "typicalSection": "OT"
     },
     "28": {
       "referenceAbbreviation": "HOS",
+      "originalLanguageCode": "hbo",
+      "bookName": "הוֹשֵׁעַ",
+      "shortAbbreviation": "Ho",
       "SBLAbbreviation": "Hos",
       "OSISAbbreviation": "Hos",
       "SwordAbbreviation": "Hos",
@@ -547,16 +685,21 @@
       "USXNumberString": "028",
       "UnboundCodeString": "28O",
       "BibleditNumberString": "28",
+      "LogosNumberString": "28",
+      "LogosAbbreviation": "Ho",
       "NETBibleAbbreviation": "Hos",
       "DrupalBibleAbbreviation": "Hos",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hosea",
+      "bookNameEnglishGuide": "Hosea",
       "typicalSection": "OT"
     },
     "29": {
       "referenceAbbreviation": "JOL",
+      "originalLanguageCode": "hbo",
+      "bookName": "יוֹאֵל",
+      "shortAbbreviation": "Jol",
       "SBLAbbreviation": "Joel",
       "OSISAbbreviation": "Joel",
       "SwordAbbreviation": "Joel",
@@ -566,16 +709,21 @@
       "USXNumberString": "029",
       "UnboundCodeString": "29O",
       "BibleditNumberString": "29",
+      "LogosNumberString": "29",
+      "LogosAbbreviation": "Joe",
       "NETBibleAbbreviation": "Joe",
       "DrupalBibleAbbreviation": "Joe",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3,4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Joel",
+      "bookNameEnglishGuide": "Joel",
       "typicalSection": "OT"
     },
     "30": {
       "referenceAbbreviation": "AMO",
+      "originalLanguageCode": "hbo",
+      "bookName": "עָמוֹס",
+      "shortAbbreviation": "Am",
       "SBLAbbreviation": "Amos",
       "OSISAbbreviation": "Amos",
       "SwordAbbreviation": "Amos",
@@ -585,16 +733,21 @@
       "USXNumberString": "030",
       "UnboundCodeString": "30O",
       "BibleditNumberString": "30",
+      "LogosNumberString": "30",
+      "LogosAbbreviation": "Am",
       "NETBibleAbbreviation": "Amo",
       "DrupalBibleAbbreviation": "Amo",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "9",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Amos",
+      "bookNameEnglishGuide": "Amos",
       "typicalSection": "OT"
     },
     "31": {
       "referenceAbbreviation": "OBA",
+      "originalLanguageCode": "hbo",
+      "bookName": "עֹבַדְיָה",
+      "shortAbbreviation": "Ob",
       "SBLAbbreviation": "Obad",
       "OSISAbbreviation": "Obad",
       "SwordAbbreviation": "Obad",
@@ -604,16 +757,21 @@
       "USXNumberString": "031",
       "UnboundCodeString": "31O",
       "BibleditNumberString": "31",
+      "LogosNumberString": "31",
+      "LogosAbbreviation": "Ob",
       "NETBibleAbbreviation": "Oba",
       "DrupalBibleAbbreviation": "Oba",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Obadiah",
+      "bookNameEnglishGuide": "Obadiah",
       "typicalSection": "OT"
     },
     "32": {
       "referenceAbbreviation": "JNA",
+      "originalLanguageCode": "hbo",
+      "bookName": "יוֹנָה",
+      "shortAbbreviation": "Jon",
       "SBLAbbreviation": "Jonah",
       "OSISAbbreviation": "Jonah",
       "SwordAbbreviation": "Jonah",
@@ -623,17 +781,22 @@
       "USXNumberString": "032",
       "UnboundCodeString": "32O",
       "BibleditNumberString": "32",
+      "LogosNumberString": "32",
+      "LogosAbbreviation": "Jon",
       "NETBibleAbbreviation": "Jon",
       "DrupalBibleAbbreviation": "Jon",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jonah",
+      "bookNameEnglishGuide": "Jonah",
       "typicalSection": "OT"
     },
     "33": {
       "referenceAbbreviation": "MIC",
-      "SBLAbbreviation": "Nic",
+      "originalLanguageCode": "hbo",
+      "bookName": "מִיכָה",
+      "shortAbbreviation": "Mi",
+      "SBLAbbreviation": "Mic",
       "OSISAbbreviation": "Mic",
       "SwordAbbreviation": "Mic",
       "CCELNumberString": "33",
@@ -642,16 +805,21 @@
       "USXNumberString": "033",
       "UnboundCodeString": "33O",
       "BibleditNumberString": "33",
+      "LogosNumberString": "33",
+      "LogosAbbreviation": "Mic",
       "NETBibleAbbreviation": "Mic",
       "DrupalBibleAbbreviation": "Mic",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "7",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Micah",
+      "bookNameEnglishGuide": "Micah",
       "typicalSection": "OT"
     },
     "34": {
       "referenceAbbreviation": "NAH",
+      "originalLanguageCode": "hbo",
+      "bookName": "נַחוּם",
+      "shortAbbreviation": "Na",
       "SBLAbbreviation": "Nah",
       "OSISAbbreviation": "Nah",
       "SwordAbbreviation": "Nah",
@@ -661,16 +829,21 @@
       "USXNumberString": "034",
       "UnboundCodeString": "34O",
       "BibleditNumberString": "34",
+      "LogosNumberString": "34",
+      "LogosAbbreviation": "Na",
       "NETBibleAbbreviation": "Nah",
       "DrupalBibleAbbreviation": "Nah",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Nahum",
+      "bookNameEnglishGuide": "Nahum",
       "typicalSection": "OT"
     },
     "35": {
       "referenceAbbreviation": "HAB",
+      "originalLanguageCode": "hbo",
+      "bookName": "חֲבַקּוּק",
+      "shortAbbreviation": "Hab",
       "SBLAbbreviation": "Hab",
       "OSISAbbreviation": "Hab",
       "SwordAbbreviation": "Hab",
@@ -680,16 +853,21 @@
       "USXNumberString": "035",
       "UnboundCodeString": "35O",
       "BibleditNumberString": "35",
+      "LogosNumberString": "35",
+      "LogosAbbreviation": "Hab",
       "NETBibleAbbreviation": "Hab",
       "DrupalBibleAbbreviation": "Hab",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Habakkuk",
+      "bookNameEnglishGuide": "Habakkuk",
       "typicalSection": "OT"
     },
     "36": {
       "referenceAbbreviation": "ZEP",
+      "originalLanguageCode": "hbo",
+      "bookName": "צְפַנְיָה",
+      "shortAbbreviation": "Zep",
       "SBLAbbreviation": "Zeph",
       "OSISAbbreviation": "Zeph",
       "SwordAbbreviation": "Zeph",
@@ -699,16 +877,21 @@
       "USXNumberString": "036",
       "UnboundCodeString": "36O",
       "BibleditNumberString": "36",
+      "LogosNumberString": "36",
+      "LogosAbbreviation": "Zep",
       "NETBibleAbbreviation": "Zep",
       "DrupalBibleAbbreviation": "Zep",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Zephaniah",
+      "bookNameEnglishGuide": "Zephaniah",
       "typicalSection": "OT"
     },
     "37": {
       "referenceAbbreviation": "HAG",
+      "originalLanguageCode": "hbo",
+      "bookName": "חַגַּי",
+      "shortAbbreviation": "Hag",
       "SBLAbbreviation": "Hag",
       "OSISAbbreviation": "Hag",
       "SwordAbbreviation": "Hag",
@@ -718,16 +901,21 @@
       "USXNumberString": "037",
       "UnboundCodeString": "37O",
       "BibleditNumberString": "37",
+      "LogosNumberString": "37",
+      "LogosAbbreviation": "Hag",
       "NETBibleAbbreviation": "Hag",
       "DrupalBibleAbbreviation": "Hag",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Haggai",
+      "bookNameEnglishGuide": "Haggai",
       "typicalSection": "OT"
     },
     "38": {
       "referenceAbbreviation": "ZEC",
+      "originalLanguageCode": "hbo",
+      "bookName": "זְכַרְיָה",
+      "shortAbbreviation": "Zec",
       "SBLAbbreviation": "Zech",
       "OSISAbbreviation": "Zech",
       "SwordAbbreviation": "Zech",
@@ -737,16 +925,21 @@
       "USXNumberString": "038",
       "UnboundCodeString": "38O",
       "BibleditNumberString": "38",
+      "LogosNumberString": "38",
+      "LogosAbbreviation": "Zec",
       "NETBibleAbbreviation": "Zec",
       "DrupalBibleAbbreviation": "Zec",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Zechariah",
+      "bookNameEnglishGuide": "Zechariah",
       "typicalSection": "OT"
     },
     "39": {
       "referenceAbbreviation": "MAL",
+      "originalLanguageCode": "hbo",
+      "bookName": "מַלְאָכִי",
+      "shortAbbreviation": "Mal",
       "SBLAbbreviation": "Mal",
       "OSISAbbreviation": "Mal",
       "SwordAbbreviation": "Mal",
@@ -756,16 +949,21 @@
       "USXNumberString": "039",
       "UnboundCodeString": "39O",
       "BibleditNumberString": "39",
+      "LogosNumberString": "39",
+      "LogosAbbreviation": "Mal",
       "NETBibleAbbreviation": "Mal",
       "DrupalBibleAbbreviation": "Mal",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4,3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Malachi",
+      "bookNameEnglishGuide": "Malachi",
       "typicalSection": "OT"
     },
     "40": {
       "referenceAbbreviation": "MAT",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Μαθθαῖον",
+      "shortAbbreviation": "Mt",
       "SBLAbbreviation": "Matt",
       "OSISAbbreviation": "Matt",
       "SwordAbbreviation": "Matt",
@@ -775,16 +973,21 @@
       "USXNumberString": "040",
       "UnboundCodeString": "40N",
       "BibleditNumberString": "40",
+      "LogosNumberString": "61",
+      "LogosAbbreviation": "Mt",
       "NETBibleAbbreviation": "Mat",
       "DrupalBibleAbbreviation": "Mat",
       "ByzantineAbbreviation": "MT",
       "numExpectedChapters": "28",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Matthew",
+      "bookNameEnglishGuide": "Matthew",
       "typicalSection": "NT"
     },
     "41": {
       "referenceAbbreviation": "MRK",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Μᾶρκον",
+      "shortAbbreviation": "Mk",
       "SBLAbbreviation": "Mark",
       "OSISAbbreviation": "Mark",
       "SwordAbbreviation": "Mark",
@@ -794,16 +997,21 @@
       "USXNumberString": "041",
       "UnboundCodeString": "41N",
       "BibleditNumberString": "41",
+      "LogosNumberString": "62",
+      "LogosAbbreviation": "Mk",
       "NETBibleAbbreviation": "Mar",
       "DrupalBibleAbbreviation": "Mak",
       "ByzantineAbbreviation": "MR",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Mark",
+      "bookNameEnglishGuide": "Mark",
       "typicalSection": "NT"
     },
     "42": {
       "referenceAbbreviation": "LUK",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Λουκᾶν",
+      "shortAbbreviation": "Lk",
       "SBLAbbreviation": "Luke",
       "OSISAbbreviation": "Luke",
       "SwordAbbreviation": "Luke",
@@ -813,6 +1021,8 @@
       "USXNumberString": "042",
       "UnboundCodeString": "42N",
       "BibleditNumberString": "42",
+      "LogosNumberString": "63",
+      "LogosAbbreviation": "Lk",
       "NETBibleAbbreviation": "Luk",
       "DrupalBibleAbbreviation": "Luk",
       "ByzantineAbbreviation": "LU",
@@ -820,11 +1030,14 @@
       "possibleAlternativeBooks": [
         "LKA"
       ],
-      "nameEnglish": "Luke",
+      "bookNameEnglishGuide": "Luke",
       "typicalSection": "NT"
     },
     "43": {
       "referenceAbbreviation": "JHN",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Ἰωάννην",
+      "shortAbbreviation": "Jn",
       "SBLAbbreviation": "John",
       "OSISAbbreviation": "John",
       "SwordAbbreviation": "John",
@@ -834,16 +1047,21 @@
       "USXNumberString": "043",
       "UnboundCodeString": "43N",
       "BibleditNumberString": "43",
+      "LogosNumberString": "64",
+      "LogosAbbreviation": "Jn",
       "NETBibleAbbreviation": "Joh",
       "DrupalBibleAbbreviation": "Jhn",
       "ByzantineAbbreviation": "JOH",
       "numExpectedChapters": "21",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "John",
+      "bookNameEnglishGuide": "John",
       "typicalSection": "NT"
     },
     "44": {
       "referenceAbbreviation": "ACT",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πράξεις Ἀποστόλων",
+      "shortAbbreviation": "Ac",
       "SBLAbbreviation": "Acts",
       "OSISAbbreviation": "Acts",
       "SwordAbbreviation": "Acts",
@@ -853,6 +1071,8 @@
       "USXNumberString": "044",
       "UnboundCodeString": "44N",
       "BibleditNumberString": "44",
+      "LogosNumberString": "65",
+      "LogosAbbreviation": "Ac",
       "NETBibleAbbreviation": "Act",
       "DrupalBibleAbbreviation": "Act",
       "ByzantineAbbreviation": "AC",
@@ -860,11 +1080,14 @@
       "possibleAlternativeBooks": [
         "LKA"
       ],
-      "nameEnglish": "Acts / Acts of the Apostles",
+      "bookNameEnglishGuide": "Acts / Acts of the Apostles",
       "typicalSection": "NT"
     },
     "45": {
       "referenceAbbreviation": "ROM",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ῥωμαίους",
+      "shortAbbreviation": "Ro",
       "SBLAbbreviation": "Rom",
       "OSISAbbreviation": "Rom",
       "SwordAbbreviation": "Rom",
@@ -874,16 +1097,21 @@
       "USXNumberString": "045",
       "UnboundCodeString": "45N",
       "BibleditNumberString": "45",
+      "LogosNumberString": "66",
+      "LogosAbbreviation": "Ro",
       "NETBibleAbbreviation": "Rom",
       "DrupalBibleAbbreviation": "Rom",
       "ByzantineAbbreviation": "RO",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Romans",
+      "bookNameEnglishGuide": "Romans",
       "typicalSection": "NT"
     },
     "46": {
       "referenceAbbreviation": "CO1",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κορινθίους α",
+      "shortAbbreviation": "1Co",
       "SBLAbbreviation": "1 Cor",
       "OSISAbbreviation": "1Cor",
       "SwordAbbreviation": "1Cor",
@@ -893,16 +1121,21 @@
       "USXNumberString": "046",
       "UnboundCodeString": "46N",
       "BibleditNumberString": "46",
+      "LogosNumberString": "67",
+      "LogosAbbreviation": "1Co",
       "NETBibleAbbreviation": "1Co",
       "DrupalBibleAbbreviation": "1Co",
       "ByzantineAbbreviation": "1CO",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Corinthians",
+      "bookNameEnglishGuide": "1 Corinthians",
       "typicalSection": "NT"
     },
     "47": {
       "referenceAbbreviation": "CO2",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κορινθίους β",
+      "shortAbbreviation": "2Co",
       "SBLAbbreviation": "2 Cor",
       "OSISAbbreviation": "2Cor",
       "SwordAbbreviation": "2Cor",
@@ -912,16 +1145,21 @@
       "USXNumberString": "047",
       "UnboundCodeString": "47N",
       "BibleditNumberString": "47",
+      "LogosNumberString": "68",
+      "LogosAbbreviation": "2Co",
       "NETBibleAbbreviation": "2Co",
       "DrupalBibleAbbreviation": "2Co",
       "ByzantineAbbreviation": "2CO",
       "numExpectedChapters": "13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Corinthians",
+      "bookNameEnglishGuide": "2 Corinthians",
       "typicalSection": "NT"
     },
     "48": {
       "referenceAbbreviation": "GAL",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Γαλάτας",
+      "shortAbbreviation": "Ga",
       "SBLAbbreviation": "Gal",
       "OSISAbbreviation": "Gal",
       "SwordAbbreviation": "Gal",
@@ -931,16 +1169,21 @@
       "USXNumberString": "048",
       "UnboundCodeString": "48N",
       "BibleditNumberString": "48",
+      "LogosNumberString": "69",
+      "LogosAbbreviation": "Ga",
       "NETBibleAbbreviation": "Gal",
       "DrupalBibleAbbreviation": "Gal",
       "ByzantineAbbreviation": "GA",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Galatians",
+      "bookNameEnglishGuide": "Galatians",
       "typicalSection": "NT"
     },
     "49": {
       "referenceAbbreviation": "EPH",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ἐφεσίους",
+      "shortAbbreviation": "Eph",
       "SBLAbbreviation": "Eph",
       "OSISAbbreviation": "Eph",
       "SwordAbbreviation": "Eph",
@@ -950,16 +1193,21 @@
       "USXNumberString": "049",
       "UnboundCodeString": "49N",
       "BibleditNumberString": "49",
+      "LogosNumberString": "70",
+      "LogosAbbreviation": "Eph",
       "NETBibleAbbreviation": "Eph",
       "DrupalBibleAbbreviation": "Eph",
       "ByzantineAbbreviation": "EPH",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ephesians",
+      "bookNameEnglishGuide": "Ephesians",
       "typicalSection": "NT"
     },
     "50": {
       "referenceAbbreviation": "PHP",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Φιλιππησίους",
+      "shortAbbreviation": "Php",
       "SBLAbbreviation": "Phil",
       "OSISAbbreviation": "Phil",
       "SwordAbbreviation": "Phil",
@@ -969,16 +1217,21 @@
       "USXNumberString": "050",
       "UnboundCodeString": "50N",
       "BibleditNumberString": "50",
+      "LogosNumberString": "71",
+      "LogosAbbreviation": "Php",
       "NETBibleAbbreviation": "Phi",
       "DrupalBibleAbbreviation": "Phl",
       "ByzantineAbbreviation": "PHP",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philippians",
+      "bookNameEnglishGuide": "Philippians",
       "typicalSection": "NT"
     },
     "51": {
       "referenceAbbreviation": "COL",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κολοσσαεῖς",
+      "shortAbbreviation": "Col",
       "SBLAbbreviation": "Col",
       "OSISAbbreviation": "Col",
       "SwordAbbreviation": "Col",
@@ -988,16 +1241,21 @@
       "USXNumberString": "051",
       "UnboundCodeString": "51N",
       "BibleditNumberString": "51",
+      "LogosNumberString": "72",
+      "LogosAbbreviation": "Col",
       "NETBibleAbbreviation": "Col",
       "DrupalBibleAbbreviation": "Col",
       "ByzantineAbbreviation": "COL",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Colossians",
+      "bookNameEnglishGuide": "Colossians",
       "typicalSection": "NT"
     },
     "52": {
       "referenceAbbreviation": "TH1",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Θεσσαλονικεῖς α",
+      "shortAbbreviation": "1Th",
       "SBLAbbreviation": "1 Thess",
       "OSISAbbreviation": "1Thess",
       "SwordAbbreviation": "1Thess",
@@ -1007,16 +1265,21 @@
       "USXNumberString": "052",
       "UnboundCodeString": "52N",
       "BibleditNumberString": "52",
+      "LogosNumberString": "73",
+      "LogosAbbreviation": "1Th",
       "NETBibleAbbreviation": "1Th",
       "DrupalBibleAbbreviation": "1Ts",
       "ByzantineAbbreviation": "1TH",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Thessalonians",
+      "bookNameEnglishGuide": "1 Thessalonians",
       "typicalSection": "NT"
     },
     "53": {
       "referenceAbbreviation": "TH2",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Θεσσαλονικεῖς β",
+      "shortAbbreviation": "2Th",
       "SBLAbbreviation": "2 Thess",
       "OSISAbbreviation": "2Thess",
       "SwordAbbreviation": "2Thess",
@@ -1026,16 +1289,21 @@
       "USXNumberString": "053",
       "UnboundCodeString": "53N",
       "BibleditNumberString": "53",
+      "LogosNumberString": "74",
+      "LogosAbbreviation": "2Th",
       "NETBibleAbbreviation": "2Th",
       "DrupalBibleAbbreviation": "2Ts",
       "ByzantineAbbreviation": "2TH",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Thessalonians",
+      "bookNameEnglishGuide": "2 Thessalonians",
       "typicalSection": "NT"
     },
     "54": {
       "referenceAbbreviation": "TI1",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τιμόθεον α",
+      "shortAbbreviation": "1Ti",
       "SBLAbbreviation": "1 Tim",
       "OSISAbbreviation": "1Tim",
       "SwordAbbreviation": "1Tim",
@@ -1045,16 +1313,21 @@
       "USXNumberString": "054",
       "UnboundCodeString": "54N",
       "BibleditNumberString": "54",
+      "LogosNumberString": "75",
+      "LogosAbbreviation": "1Ti",
       "NETBibleAbbreviation": "1Ti",
       "DrupalBibleAbbreviation": "1Tm",
       "ByzantineAbbreviation": "1TI",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Timothy",
+      "bookNameEnglishGuide": "1 Timothy",
       "typicalSection": "NT"
     },
     "55": {
       "referenceAbbreviation": "TI2",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τιμόθεον β",
+      "shortAbbreviation": "2Ti",
       "SBLAbbreviation": "2 Tim",
       "OSISAbbreviation": "2Tim",
       "SwordAbbreviation": "2Tim",
@@ -1064,16 +1337,21 @@
       "USXNumberString": "055",
       "UnboundCodeString": "55N",
       "BibleditNumberString": "55",
+      "LogosNumberString": "76",
+      "LogosAbbreviation": "2Ti",
       "NETBibleAbbreviation": "2Ti",
       "DrupalBibleAbbreviation": "2Tm",
       "ByzantineAbbreviation": "2TI",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Timothy",
+      "bookNameEnglishGuide": "2 Timothy",
       "typicalSection": "NT"
     },
     "56": {
       "referenceAbbreviation": "TIT",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τίτον",
+      "shortAbbreviation": "Tit",
       "SBLAbbreviation": "Titus",
       "OSISAbbreviation": "Titus",
       "SwordAbbreviation": "Titus",
@@ -1083,16 +1361,21 @@
       "USXNumberString": "056",
       "UnboundCodeString": "56N",
       "BibleditNumberString": "56",
+      "LogosNumberString": "77",
+      "LogosAbbreviation": "Tt",
       "NETBibleAbbreviation": "Tit",
       "DrupalBibleAbbreviation": "Tit",
       "ByzantineAbbreviation": "TIT",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Titus",
+      "bookNameEnglishGuide": "Titus",
       "typicalSection": "NT"
     },
     "57": {
       "referenceAbbreviation": "PHM",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Φιλήμονα",
+      "shortAbbreviation": "Phm",
       "SBLAbbreviation": "Phlm",
       "OSISAbbreviation": "Phlm",
       "SwordAbbreviation": "Phlm",
@@ -1102,16 +1385,21 @@
       "USXNumberString": "057",
       "UnboundCodeString": "57N",
       "BibleditNumberString": "57",
+      "LogosNumberString": "78",
+      "LogosAbbreviation": "Phm",
       "NETBibleAbbreviation": "Phm",
       "DrupalBibleAbbreviation": "Phm",
       "ByzantineAbbreviation": "PHM",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philemon",
+      "bookNameEnglishGuide": "Philemon",
       "typicalSection": "NT"
     },
     "58": {
       "referenceAbbreviation": "HEB",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ἑβραίους",
+      "shortAbbreviation": "Heb",
       "SBLAbbreviation": "Heb",
       "OSISAbbreviation": "Heb",
       "SwordAbbreviation": "Heb",
@@ -1121,16 +1409,21 @@
       "USXNumberString": "058",
       "UnboundCodeString": "58N",
       "BibleditNumberString": "58",
+      "LogosNumberString": "79",
+      "LogosAbbreviation": "Heb",
       "NETBibleAbbreviation": "Heb",
       "DrupalBibleAbbreviation": "Heb",
       "ByzantineAbbreviation": "HEB",
       "numExpectedChapters": "13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hebrews",
+      "bookNameEnglishGuide": "Hebrews",
       "typicalSection": "NT"
     },
     "59": {
       "referenceAbbreviation": "JAM",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰακώβου",
+      "shortAbbreviation": "Jas",
       "SBLAbbreviation": "Jas",
       "OSISAbbreviation": "Jas",
       "SwordAbbreviation": "Jas",
@@ -1140,16 +1433,21 @@
       "USXNumberString": "059",
       "UnboundCodeString": "59N",
       "BibleditNumberString": "59",
+      "LogosNumberString": "80",
+      "LogosAbbreviation": "Jas",
       "NETBibleAbbreviation": "Jam",
       "DrupalBibleAbbreviation": "Jam",
       "ByzantineAbbreviation": "JAS",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "James / Jacob",
+      "bookNameEnglishGuide": "James / Jacob",
       "typicalSection": "NT"
     },
     "60": {
       "referenceAbbreviation": "PE1",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πέτρου α",
+      "shortAbbreviation": "1Pe",
       "SBLAbbreviation": "1 Pet",
       "OSISAbbreviation": "1Pet",
       "SwordAbbreviation": "1Pet",
@@ -1159,16 +1457,21 @@
       "USXNumberString": "060",
       "UnboundCodeString": "60N",
       "BibleditNumberString": "60",
+      "LogosNumberString": "81",
+      "LogosAbbreviation": "1Pe",
       "NETBibleAbbreviation": "1Pe",
       "DrupalBibleAbbreviation": "1Pe",
       "ByzantineAbbreviation": "1PE",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Peter",
+      "bookNameEnglishGuide": "1 Peter",
       "typicalSection": "NT"
     },
     "61": {
       "referenceAbbreviation": "PE2",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πέτρου β",
+      "shortAbbreviation": "2Pe",
       "SBLAbbreviation": "2 Pet",
       "OSISAbbreviation": "2Pet",
       "SwordAbbreviation": "2Pet",
@@ -1178,16 +1481,21 @@
       "USXNumberString": "061",
       "UnboundCodeString": "61N",
       "BibleditNumberString": "61",
+      "LogosNumberString": "82",
+      "LogosAbbreviation": "2Pe",
       "NETBibleAbbreviation": "2Pe",
       "DrupalBibleAbbreviation": "2Pe",
       "ByzantineAbbreviation": "2PE",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Peter",
+      "bookNameEnglishGuide": "2 Peter",
       "typicalSection": "NT"
     },
     "62": {
       "referenceAbbreviation": "JN1",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου α",
+      "shortAbbreviation": "1Jn",
       "SBLAbbreviation": "1 John",
       "OSISAbbreviation": "1John",
       "SwordAbbreviation": "1John",
@@ -1197,16 +1505,21 @@
       "USXNumberString": "062",
       "UnboundCodeString": "62N",
       "BibleditNumberString": "62",
+      "LogosNumberString": "83",
+      "LogosAbbreviation": "1Jn",
       "NETBibleAbbreviation": "1Jo",
       "DrupalBibleAbbreviation": "1Jn",
       "ByzantineAbbreviation": "1JO",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 John",
+      "bookNameEnglishGuide": "1 John",
       "typicalSection": "NT"
     },
     "63": {
       "referenceAbbreviation": "JN2",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου β",
+      "shortAbbreviation": "2Jn",
       "SBLAbbreviation": "2 John",
       "OSISAbbreviation": "2John",
       "SwordAbbreviation": "2John",
@@ -1216,16 +1529,21 @@
       "USXNumberString": "063",
       "UnboundCodeString": "63N",
       "BibleditNumberString": "63",
+      "LogosNumberString": "84",
+      "LogosAbbreviation": "2Jn",
       "NETBibleAbbreviation": "2Jo",
       "DrupalBibleAbbreviation": "2Jn",
       "ByzantineAbbreviation": "2JO",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 John",
+      "bookNameEnglishGuide": "2 John",
       "typicalSection": "NT"
     },
     "64": {
       "referenceAbbreviation": "JN3",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου γ",
+      "shortAbbreviation": "3Jn",
       "SBLAbbreviation": "3 John",
       "OSISAbbreviation": "3John",
       "SwordAbbreviation": "3John",
@@ -1235,16 +1553,21 @@
       "USXNumberString": "064",
       "UnboundCodeString": "64N",
       "BibleditNumberString": "64",
+      "LogosNumberString": "85",
+      "LogosAbbreviation": "3Jn",
       "NETBibleAbbreviation": "3Jo",
       "DrupalBibleAbbreviation": "3Jn",
       "ByzantineAbbreviation": "3JO",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 John",
+      "bookNameEnglishGuide": "3 John",
       "typicalSection": "NT"
     },
     "65": {
       "referenceAbbreviation": "JDE",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰούδας",
+      "shortAbbreviation": "Jud",
       "SBLAbbreviation": "Jude",
       "OSISAbbreviation": "Jude",
       "SwordAbbreviation": "Jude",
@@ -1254,16 +1577,21 @@
       "USXNumberString": "065",
       "UnboundCodeString": "65N",
       "BibleditNumberString": "65",
+      "LogosNumberString": "86",
+      "LogosAbbreviation": "Jud",
       "NETBibleAbbreviation": "Jud",
       "DrupalBibleAbbreviation": "Jud",
       "ByzantineAbbreviation": "JUDE",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jude",
+      "bookNameEnglishGuide": "Jude / Judas",
       "typicalSection": "NT"
     },
     "66": {
       "referenceAbbreviation": "REV",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἀποκάλυψις Ἰωάννου",
+      "shortAbbreviation": "Re",
       "SBLAbbreviation": "Rev",
       "OSISAbbreviation": "Rev",
       "SwordAbbreviation": "Rev",
@@ -1273,16 +1601,21 @@
       "USXNumberString": "066",
       "UnboundCodeString": "66N",
       "BibleditNumberString": "66",
+      "LogosNumberString": "87",
+      "LogosAbbreviation": "Re",
       "NETBibleAbbreviation": "Rev",
       "DrupalBibleAbbreviation": "Rev",
       "ByzantineAbbreviation": "RE",
       "numExpectedChapters": "22",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Revelation / Revelation of John / Apocalypse of St. John",
+      "bookNameEnglishGuide": "Revelation / Revelation of John / Apocalypse of St. John",
       "typicalSection": "NT"
     },
     "70": {
       "referenceAbbreviation": "ESG",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "EsthGr",
       "SwordAbbreviation": "EsthGr",
@@ -1292,6 +1625,8 @@
       "USXNumberString": "069",
       "UnboundCodeString": "69A",
       "BibleditNumberString": "72",
+      "LogosNumberString": "42",
+      "LogosAbbreviation": "GkEs",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1301,11 +1636,14 @@
         "ESA",
         "ESC"
       ],
-      "nameEnglish": "Greek Esther / Esther (Greek)",
+      "bookNameEnglishGuide": "Greek Esther / Esther (Greek)",
       "typicalSection": "OT"
     },
     "71": {
       "referenceAbbreviation": "ESA",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "AddEsth",
       "SwordAbbreviation": "AddEsth",
@@ -1315,6 +1653,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1324,11 +1664,14 @@
         "ESG",
         "ESC"
       ],
-      "nameEnglish": "Greek additions to Esther / Esther (additions)",
+      "bookNameEnglishGuide": "Greek additions to Esther / Esther (additions)",
       "typicalSection": "OT"
     },
     "72": {
       "referenceAbbreviation": "ESC",
+      "originalLanguageCode": "hbo, el-x-koine",
+      "bookName": "אֶסְתֵר",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "AddEsth",
       "SwordAbbreviation": "AddEsth",
@@ -1338,6 +1681,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1347,11 +1692,14 @@
         "ESG",
         "ESA"
       ],
-      "nameEnglish": "Combined Hebrew/Greek Esther / Esther (combined)",
+      "bookNameEnglishGuide": "Combined Hebrew/Greek Esther / Esther (combined)",
       "typicalSection": "OT"
     },
     "73": {
       "referenceAbbreviation": "DNG",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "DanGr",
@@ -1361,6 +1709,8 @@
       "USXNumberString": "112",
       "UnboundCodeString": null,
       "BibleditNumberString": "88",
+      "LogosNumberString": "98",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1371,11 +1721,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Greek Daniel / Daniel (Greek)",
+      "bookNameEnglishGuide": "Greek Daniel / Daniel (Greek)",
       "typicalSection": "OT"
     },
     "74": {
       "referenceAbbreviation": "DNA",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "AddDan",
@@ -1385,6 +1738,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1395,11 +1750,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Greek additions to Daniel / Daniel (additions)",
+      "bookNameEnglishGuide": "Greek additions to Daniel / Daniel (additions)",
       "typicalSection": "OT"
     },
     "75": {
       "referenceAbbreviation": "DNC",
+      "originalLanguageCode": "hbo, el-x-koine",
+      "bookName": "דָּנִיֵּאל",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "AddDan",
@@ -1409,6 +1767,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1419,11 +1779,14 @@
         "DNA",
         "DNT"
       ],
-      "nameEnglish": "Combined Hebrew/Greek Daniel / Daniel (combined)",
+      "bookNameEnglishGuide": "Combined Hebrew/Greek Daniel / Daniel (combined)",
       "typicalSection": "OT"
     },
     "80": {
       "referenceAbbreviation": "BEL",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Bel",
       "SBLAbbreviation": "Bel",
       "OSISAbbreviation": "Bel",
       "SwordAbbreviation": "Bel",
@@ -1433,6 +1796,8 @@
       "USXNumberString": "076",
       "UnboundCodeString": "76A",
       "BibleditNumberString": "79",
+      "LogosNumberString": "49",
+      "LogosAbbreviation": "Bel",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1440,11 +1805,14 @@
       "possibleAlternativeBooks": [
         "BLT"
       ],
-      "nameEnglish": "Bel and the dragon",
+      "bookNameEnglishGuide": "Bel and the dragon",
       "typicalSection": "DC"
     },
     "81": {
       "referenceAbbreviation": "SUS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Sus",
       "SBLAbbreviation": "Sus",
       "OSISAbbreviation": "Sus",
       "SwordAbbreviation": "Sus",
@@ -1454,6 +1822,8 @@
       "USXNumberString": "075",
       "UnboundCodeString": "75A",
       "BibleditNumberString": "78",
+      "LogosNumberString": "48",
+      "LogosAbbreviation": "Sus",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1461,11 +1831,14 @@
       "possibleAlternativeBooks": [
         "SST"
       ],
-      "nameEnglish": "Susanna",
+      "bookNameEnglishGuide": "Susanna",
       "typicalSection": "DC"
     },
     "82": {
       "referenceAbbreviation": "JDT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Jdt",
       "SBLAbbreviation": "Jdt",
       "OSISAbbreviation": "Jdt",
       "SwordAbbreviation": "Jdt",
@@ -1475,16 +1848,21 @@
       "USXNumberString": "068",
       "UnboundCodeString": "68A",
       "BibleditNumberString": "71",
+      "LogosNumberString": "41",
+      "LogosAbbreviation": "Jdt",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Judith",
+      "bookNameEnglishGuide": "Judith",
       "typicalSection": "DC"
     },
     "83": {
       "referenceAbbreviation": "MAN",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Pr Man",
       "OSISAbbreviation": "PrMan",
       "SwordAbbreviation": "PrMan",
@@ -1494,16 +1872,21 @@
       "USXNumberString": "083",
       "UnboundCodeString": "83A",
       "BibleditNumberString": "83",
+      "LogosNumberString": "53",
+      "LogosAbbreviation": "PrMan",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Manasses / Prayer of Manasseh",
+      "bookNameEnglishGuide": "Prayer of Manasses / Prayer of Manasseh",
       "typicalSection": "DC"
     },
     "84": {
       "referenceAbbreviation": "SIR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Sir",
       "SBLAbbreviation": "Sir",
       "OSISAbbreviation": "Sir",
       "SwordAbbreviation": "Sir",
@@ -1513,16 +1896,21 @@
       "USXNumberString": "071",
       "UnboundCodeString": "71A",
       "BibleditNumberString": "74",
+      "LogosNumberString": "44",
+      "LogosAbbreviation": "Sir",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "51,52",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Sirach / Ecclesiasticus / Wisdom of Ben Sira / Wisdom of Jesus son of Sirach",
+      "bookNameEnglishGuide": "Sirach / Ecclesiasticus / Wisdom of Ben Sira / Wisdom of Jesus son of Sirach",
       "typicalSection": "DC"
     },
     "85": {
       "referenceAbbreviation": "SIP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "SirP",
       "SwordAbbreviation": "SirP",
@@ -1532,16 +1920,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Sirach Prologue",
+      "bookNameEnglishGuide": "Sirach Prologue",
       "typicalSection": "DC"
     },
     "86": {
       "referenceAbbreviation": "TOB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Tob",
       "SBLAbbreviation": "Tob",
       "OSISAbbreviation": "Tob",
       "SwordAbbreviation": "Tob",
@@ -1551,6 +1944,8 @@
       "USXNumberString": "067",
       "UnboundCodeString": "67A",
       "BibleditNumberString": "70",
+      "LogosNumberString": "40",
+      "LogosAbbreviation": "Tob",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1558,11 +1953,14 @@
       "possibleAlternativeBooks": [
         "TBS"
       ],
-      "nameEnglish": "Tobit / Tobias",
+      "bookNameEnglishGuide": "Tobit / Tobias",
       "typicalSection": "DC"
     },
     "87": {
       "referenceAbbreviation": "WIS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Wis",
       "SBLAbbreviation": "Wis",
       "OSISAbbreviation": "Wis",
       "SwordAbbreviation": "Wis",
@@ -1572,16 +1970,21 @@
       "USXNumberString": "070",
       "UnboundCodeString": "70A",
       "BibleditNumberString": "73",
+      "LogosNumberString": "43",
+      "LogosAbbreviation": "Wis",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "19",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Wisdom / Wisdom of Solomon",
+      "bookNameEnglishGuide": "Wisdom / Wisdom of Solomon",
       "typicalSection": "DC"
     },
     "88": {
       "referenceAbbreviation": "PAZ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Az",
       "SBLAbbreviation": "Pr Azar",
       "OSISAbbreviation": "PrAzar",
       "SwordAbbreviation": "PrAzar",
@@ -1591,16 +1994,21 @@
       "USXNumberString": "074",
       "UnboundCodeString": "74A",
       "BibleditNumberString": "77",
+      "LogosNumberString": "47",
+      "LogosAbbreviation": "SongThr",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Azariah and the Song of the Three Young Men / Prayer of Azariah / Song of the Three Young Men / Song of the Three Children",
+      "bookNameEnglishGuide": "Prayer of Azariah and the Song of the Three Young Men / Prayer of Azariah / Song of the Three Young Men / Song of the Three Children",
       "typicalSection": "DC"
     },
     "90": {
       "referenceAbbreviation": "GES",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "1 Esd",
       "OSISAbbreviation": "1Esd",
       "SwordAbbreviation": "1Esd",
@@ -1610,6 +2018,8 @@
       "USXNumberString": "081",
       "UnboundCodeString": "81A",
       "BibleditNumberString": "82",
+      "LogosNumberString": "52",
+      "LogosAbbreviation": "1Esd",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1617,11 +2027,14 @@
       "possibleAlternativeBooks": [
         "LES"
       ],
-      "nameEnglish": "Greek Esdras / Greek Ezra / 1 Esdras / 1 Ezra / 2 Ezra / 3 Ezra / 3 Esdras",
+      "bookNameEnglishGuide": "Greek Esdras / Greek Ezra / 1 Esdras / 1 Ezra / 2 Ezra / 3 Ezra / 3 Esdras",
       "typicalSection": "???"
     },
     "91": {
       "referenceAbbreviation": "LES",
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "2 Esd",
       "OSISAbbreviation": "2Esd",
       "SwordAbbreviation": "2Esd",
@@ -1631,6 +2044,8 @@
       "USXNumberString": "082",
       "UnboundCodeString": "82A",
       "BibleditNumberString": "86",
+      "LogosNumberString": "56",
+      "LogosAbbreviation": "2Esd",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1638,11 +2053,14 @@
       "possibleAlternativeBooks": [
         "GES"
       ],
-      "nameEnglish": "Latin Esdras / 2 Esdras / 3 Esdras / 4 Esdras / 4 Ezra",
+      "bookNameEnglishGuide": "Latin Esdras / 2 Esdras / 3 Esdras / 4 Esdras / 4 Ezra",
       "typicalSection": "???"
     },
     "92": {
       "referenceAbbreviation": "EZA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "4 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "4Ezra",
@@ -1652,16 +2070,21 @@
       "USXNumberString": "104",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "100",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "12,13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocalypse of Ezra / Ezra Apocalypse / 4 Ezra / Ezra Shealtiel",
+      "bookNameEnglishGuide": "Apocalypse of Ezra / Ezra Apocalypse / 4 Ezra / Ezra Shealtiel",
       "typicalSection": "???"
     },
     "93": {
       "referenceAbbreviation": "EZ5",
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "5 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "5Ezra",
@@ -1671,16 +2094,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "200",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "5 Ezra / 3 Esdras / 5 Esdras",
+      "bookNameEnglishGuide": "5 Ezra / 3 Esdras / 5 Esdras",
       "typicalSection": "???"
     },
     "94": {
       "referenceAbbreviation": "EZ6",
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "6 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "6Ezra",
@@ -1690,16 +2118,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "201",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "6 Ezra / 5 Esdras / 6 Esdras",
+      "bookNameEnglishGuide": "6 Ezra / 5 Esdras / 6 Esdras",
       "typicalSection": "???"
     },
     "95": {
       "referenceAbbreviation": "RVE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "RevEzra",
       "SwordAbbreviation": "RevEzra",
@@ -1709,16 +2142,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Revelation of Ezra",
+      "bookNameEnglishGuide": "Revelation of Ezra",
       "typicalSection": "PS"
     },
     "96": {
       "referenceAbbreviation": "VSE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "VisEzra",
       "SwordAbbreviation": "VisEzra",
@@ -1728,16 +2166,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Vison of Ezra",
+      "bookNameEnglishGuide": "Vison of Ezra",
       "typicalSection": "PS"
     },
     "100": {
       "referenceAbbreviation": "LJE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "LJe",
       "SBLAbbreviation": "Ep Jer",
       "OSISAbbreviation": "EpJer",
       "SwordAbbreviation": "EpJer",
@@ -1747,6 +2190,8 @@
       "USXNumberString": "073",
       "UnboundCodeString": "73A",
       "BibleditNumberString": "76",
+      "LogosNumberString": "46",
+      "LogosAbbreviation": "LetJer",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1754,11 +2199,14 @@
       "possibleAlternativeBooks": [
         "LJB"
       ],
-      "nameEnglish": "Letter of Jeremiah / Epistle of Jeremiah",
+      "bookNameEnglishGuide": "Letter of Jeremiah / Epistle of Jeremiah",
       "typicalSection": "DC"
     },
     "101": {
       "referenceAbbreviation": "BAR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Bar",
       "SBLAbbreviation": "Bar",
       "OSISAbbreviation": "Bar",
       "SwordAbbreviation": "Bar",
@@ -1768,18 +2216,23 @@
       "USXNumberString": "072",
       "UnboundCodeString": "72A",
       "BibleditNumberString": "75",
+      "LogosNumberString": "45",
+      "LogosAbbreviation": "Bar",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "5,6",
+      "numExpectedChapters": "5",
       "possibleAlternativeBooks": [
         "LJB"
       ],
-      "nameEnglish": "Baruch / 1 Baruch",
+      "bookNameEnglishGuide": "Baruch / 1 Baruch",
       "typicalSection": "DC"
     },
     "102": {
       "referenceAbbreviation": "LJB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Ep Jer",
       "OSISAbbreviation": "EpJer",
       "SwordAbbreviation": "EpJer",
@@ -1789,6 +2242,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1796,11 +2251,14 @@
       "possibleAlternativeBooks": [
         "BAR"
       ],
-      "nameEnglish": "Letter of Jeremiah with Baruch / Epistle of Jeremiah with Baruch",
+      "bookNameEnglishGuide": "Letter of Jeremiah with Baruch / Epistle of Jeremiah with Baruch",
       "typicalSection": "DC"
     },
     "103": {
       "referenceAbbreviation": "BA2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Bar",
@@ -1810,6 +2268,8 @@
       "USXNumberString": "114",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "96",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1817,11 +2277,14 @@
       "possibleAlternativeBooks": [
         "LB2"
       ],
-      "nameEnglish": "2 Baruch / Apocalypse of Baruch",
+      "bookNameEnglishGuide": "2 Baruch / Apocalypse of Baruch",
       "typicalSection": "DC"
     },
     "104": {
       "referenceAbbreviation": "LBA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpBar",
@@ -1831,6 +2294,8 @@
       "USXNumberString": "115",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "97",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1838,11 +2303,14 @@
       "possibleAlternativeBooks": [
         "LB2"
       ],
-      "nameEnglish": "Letter of Baruch / Epistle of Baruch",
+      "bookNameEnglishGuide": "Letter of Baruch / Epistle of Baruch",
       "typicalSection": "DC"
     },
     "105": {
       "referenceAbbreviation": "LB2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -1852,6 +2320,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "99",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -1860,11 +2330,14 @@
         "BA2",
         "LBA"
       ],
-      "nameEnglish": "2 Baruch with the Letter of Baruch",
+      "bookNameEnglishGuide": "2 Baruch with the Letter of Baruch",
       "typicalSection": "???"
     },
     "106": {
       "referenceAbbreviation": "BA3",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "3Bar",
       "SwordAbbreviation": "3Bar",
@@ -1874,16 +2347,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Baruch",
+      "bookNameEnglishGuide": "3 Baruch",
       "typicalSection": "???"
     },
     "107": {
       "referenceAbbreviation": "BA4",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "4Bar",
@@ -1893,16 +2371,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "208",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "6,5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "4 Baruch / Paralipomenon of Jeremiah / Paraleipomena Ieremiou / Rest of the Words of Baruch",
+      "bookNameEnglishGuide": "4 Baruch / Paralipomenon of Jeremiah / Paraleipomena Ieremiou / Rest of the Words of Baruch",
       "typicalSection": "???"
     },
     "108": {
       "referenceAbbreviation": "JRA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "AddJer",
@@ -1912,16 +2395,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Additions to Jeremiah / Rest of Jeremiah",
+      "bookNameEnglishGuide": "Additions to Jeremiah / Rest of Jeremiah",
       "typicalSection": "???"
     },
     "109": {
       "referenceAbbreviation": "PSJ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PsJos",
@@ -1931,16 +2419,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Pseudo-Josephus",
+      "bookNameEnglishGuide": "Pseudo-Josephus",
       "typicalSection": "???"
     },
     "110": {
       "referenceAbbreviation": "MAC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -1950,16 +2443,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Maccabees",
+      "bookNameEnglishGuide": "Maccabees",
       "typicalSection": "DC"
     },
     "111": {
       "referenceAbbreviation": "MA1",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "1Ma",
       "SBLAbbreviation": "1 Macc",
       "OSISAbbreviation": "1Macc",
       "SwordAbbreviation": "1Macc",
@@ -1969,16 +2467,21 @@
       "USXNumberString": "077",
       "UnboundCodeString": "77A",
       "BibleditNumberString": "80",
+      "LogosNumberString": "50",
+      "LogosAbbreviation": "1Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Maccabees",
+      "bookNameEnglishGuide": "1 Maccabees",
       "typicalSection": "DC"
     },
     "112": {
       "referenceAbbreviation": "MA2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "2Ma",
       "SBLAbbreviation": "2 Macc",
       "OSISAbbreviation": "2Macc",
       "SwordAbbreviation": "2Macc",
@@ -1988,16 +2491,21 @@
       "USXNumberString": "078",
       "UnboundCodeString": "78A",
       "BibleditNumberString": "81",
+      "LogosNumberString": "51",
+      "LogosAbbreviation": "2Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "15",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Maccabees",
+      "bookNameEnglishGuide": "2 Maccabees",
       "typicalSection": "DC"
     },
     "113": {
       "referenceAbbreviation": "MA3",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "3Ma",
       "SBLAbbreviation": "3 Macc",
       "OSISAbbreviation": "3Macc",
       "SwordAbbreviation": "3Macc",
@@ -2007,16 +2515,21 @@
       "USXNumberString": "079",
       "UnboundCodeString": "79A",
       "BibleditNumberString": "85",
+      "LogosNumberString": "55",
+      "LogosAbbreviation": "3Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "7",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Maccabees",
+      "bookNameEnglishGuide": "3 Maccabees",
       "typicalSection": "DC"
     },
     "114": {
       "referenceAbbreviation": "MA4",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "4Ma",
       "SBLAbbreviation": "4 Macc",
       "OSISAbbreviation": "4Macc",
       "SwordAbbreviation": "4Macc",
@@ -2026,16 +2539,21 @@
       "USXNumberString": "080",
       "UnboundCodeString": "80A",
       "BibleditNumberString": "87",
+      "LogosNumberString": "57",
+      "LogosAbbreviation": "4Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "18",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "4 Maccabees",
+      "bookNameEnglishGuide": "4 Maccabees",
       "typicalSection": "DC"
     },
     "115": {
       "referenceAbbreviation": "MA5",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "5Ma",
       "SBLAbbreviation": null,
       "OSISAbbreviation": "5Macc",
       "SwordAbbreviation": "5Macc",
@@ -2045,16 +2563,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "5 Maccabees",
+      "bookNameEnglishGuide": "5 Maccabees",
       "typicalSection": "???"
     },
     "116": {
       "referenceAbbreviation": "MQ1",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1Meq",
@@ -2064,16 +2587,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "204",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Meqabyan / 1 Makabian / Mekabis of Benjamin",
+      "bookNameEnglishGuide": "1 Meqabyan / 1 Makabian / Mekabis of Benjamin",
       "typicalSection": "???"
     },
     "117": {
       "referenceAbbreviation": "MQ2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Meq",
@@ -2083,16 +2611,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "205",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "20,21",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Meqabyan / 2 Makabian / Mekabis of Moab",
+      "bookNameEnglishGuide": "2 Meqabyan / 2 Makabian / Mekabis of Moab",
       "typicalSection": "???"
     },
     "118": {
       "referenceAbbreviation": "MQ3",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "3Meq",
@@ -2102,16 +2635,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "206",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "10",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Meqabyan / 3 Makabian",
+      "bookNameEnglishGuide": "3 Meqabyan / 3 Makabian",
       "typicalSection": "???"
     },
     "120": {
       "referenceAbbreviation": "PB1",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2121,16 +2659,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "41",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 1 / Psalms Book I",
+      "bookNameEnglishGuide": "Psalms Book 1 / Psalms Book I",
       "typicalSection": "OT"
     },
     "121": {
       "referenceAbbreviation": "PB2",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2140,16 +2683,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 2 / Psalms Book II",
+      "bookNameEnglishGuide": "Psalms Book 2 / Psalms Book II",
       "typicalSection": "OT"
     },
     "122": {
       "referenceAbbreviation": "PB3",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2159,16 +2707,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "17",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 3 / Psalms Book III",
+      "bookNameEnglishGuide": "Psalms Book 3 / Psalms Book III",
       "typicalSection": "OT"
     },
     "123": {
       "referenceAbbreviation": "PB4",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2178,16 +2731,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "17",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 4 / Psalms Book IV",
+      "bookNameEnglishGuide": "Psalms Book 4 / Psalms Book IV",
       "typicalSection": "OT"
     },
     "124": {
       "referenceAbbreviation": "PB5",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2197,16 +2755,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "44",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 5 / Psalms Book V",
+      "bookNameEnglishGuide": "Psalms Book 5 / Psalms Book V",
       "typicalSection": "OT"
     },
     "125": {
       "referenceAbbreviation": "PSB",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PsMet",
@@ -2216,16 +2779,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "150",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms B / Liturgical Psalms / Metrical Psalms / Alternative Psalms / Grail Psalms",
+      "bookNameEnglishGuide": "Psalms B / Liturgical Psalms / Metrical Psalms / Alternative Psalms / Grail Psalms",
       "typicalSection": "OT+"
     },
     "126": {
       "referenceAbbreviation": "PS2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "AddPs",
       "SwordAbbreviation": "AddPs",
@@ -2235,16 +2803,21 @@
       "USXNumberString": "084",
       "UnboundCodeString": "84A",
       "BibleditNumberString": "84",
+      "LogosNumberString": "54",
+      "LogosAbbreviation": "Ps151",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalm 151",
+      "bookNameEnglishGuide": "Psalm 151",
       "typicalSection": "OT+"
     },
     "127": {
       "referenceAbbreviation": "PS3",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "5ApocSyrPss",
@@ -2254,16 +2827,21 @@
       "USXNumberString": "113",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "202",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "5,4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Syriac Psalms 152-155 / Five apocryphal Syriac Psalms / Additional Syriac Psalms",
+      "bookNameEnglishGuide": "Syriac Psalms 152-155 / Five apocryphal Syriac Psalms / Additional Syriac Psalms",
       "typicalSection": "???"
     },
     "128": {
       "referenceAbbreviation": "PSS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PssSol",
@@ -2273,16 +2851,21 @@
       "USXNumberString": "086",
       "UnboundCodeString": "85A",
       "BibleditNumberString": null,
+      "LogosNumberString": "59",
+      "LogosAbbreviation": "PsSol",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "18",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Additional Psalms of Solomon",
+      "bookNameEnglishGuide": "Additional Psalms of Solomon",
       "typicalSection": "???"
     },
     "130": {
       "referenceAbbreviation": "LAO",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpLao",
@@ -2292,16 +2875,21 @@
       "USXNumberString": "123",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "60",
+      "LogosAbbreviation": "Laod",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter to the Laodiceans",
+      "bookNameEnglishGuide": "Letter to the Laodiceans",
       "typicalSection": "NT+"
     },
     "131": {
       "referenceAbbreviation": "ODE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Odes",
@@ -2311,16 +2899,21 @@
       "USXNumberString": "085",
       "UnboundCodeString": "86A",
       "BibleditNumberString": null,
+      "LogosNumberString": "58",
+      "LogosAbbreviation": "Ode",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Odes / Odae",
+      "bookNameEnglishGuide": "Odes / Odae",
       "typicalSection": "DC"
     },
     "132": {
       "referenceAbbreviation": "PSO",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrSol",
@@ -2330,16 +2923,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Solomon",
+      "bookNameEnglishGuide": "Prayer of Solomon",
       "typicalSection": "DC"
     },
     "133": {
       "referenceAbbreviation": "PJE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrJer",
@@ -2349,16 +2947,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Jeremiah",
+      "bookNameEnglishGuide": "Prayer of Jeremiah",
       "typicalSection": "DC"
     },
     "134": {
       "referenceAbbreviation": "WSI",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "WSir",
@@ -2368,16 +2971,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Words of Sirach",
+      "bookNameEnglishGuide": "Words of Sirach",
       "typicalSection": "???"
     },
     "135": {
       "referenceAbbreviation": "COP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpCorPaul",
@@ -2387,16 +2995,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of the Corinthians to Paul / Epistle of the Corinthians to Paul",
+      "bookNameEnglishGuide": "Letter of the Corinthians to Paul / Epistle of the Corinthians to Paul",
       "typicalSection": "NT+"
     },
     "136": {
       "referenceAbbreviation": "CO3",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "3Cor",
@@ -2406,16 +3019,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Corinthians",
+      "bookNameEnglishGuide": "3 Corinthians",
       "typicalSection": "NT+"
     },
     "137": {
       "referenceAbbreviation": "EUT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrEuth",
@@ -2425,16 +3043,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Euthalius",
+      "bookNameEnglishGuide": "Prayer of Euthalius",
       "typicalSection": "NT+"
     },
     "138": {
       "referenceAbbreviation": "DOJ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "DormJohn",
@@ -2444,16 +3067,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Dormition of John",
+      "bookNameEnglishGuide": "Dormition of John",
       "typicalSection": "NT+"
     },
     "140": {
       "referenceAbbreviation": "JUB",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Jub",
@@ -2463,16 +3091,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "203",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "34",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jubilees",
+      "bookNameEnglishGuide": "Jubilees",
       "typicalSection": "DC"
     },
     "141": {
       "referenceAbbreviation": "ENO",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1En",
@@ -2482,16 +3115,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "88",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "42",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Enoch / 1 Enoch / Ethiopic Apocalypse of Enoch",
+      "bookNameEnglishGuide": "Enoch / 1 Enoch / Ethiopic Apocalypse of Enoch",
       "typicalSection": "???"
     },
     "142": {
       "referenceAbbreviation": "EN2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "2En",
       "SwordAbbreviation": "2En",
@@ -2501,16 +3139,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Enoch",
+      "bookNameEnglishGuide": "2 Enoch",
       "typicalSection": "???"
     },
     "143": {
       "referenceAbbreviation": "REP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Rep",
@@ -2520,16 +3163,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "207",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Reproof / Tegsas / Tegsats / Taagsas",
+      "bookNameEnglishGuide": "Reproof / Tegsas / Tegsats / Taagsas",
       "typicalSection": "???"
     },
     "144": {
       "referenceAbbreviation": "LBB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Barn",
@@ -2539,16 +3187,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of Barnabas / Epistle of Barnabas / Barnabas",
+      "bookNameEnglishGuide": "Letter of Barnabas / Epistle of Barnabas / Barnabas",
       "typicalSection": "???"
     },
     "150": {
       "referenceAbbreviation": "CL1",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1Clem",
@@ -2558,16 +3211,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "65",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Clement",
+      "bookNameEnglishGuide": "1 Clement",
       "typicalSection": "???"
     },
     "151": {
       "referenceAbbreviation": "CL2",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Clem",
@@ -2577,16 +3235,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "20",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Clement",
+      "bookNameEnglishGuide": "2 Clement",
       "typicalSection": "???"
     },
     "153": {
       "referenceAbbreviation": "DID",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Did",
@@ -2596,16 +3259,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Didache",
+      "bookNameEnglishGuide": "Didache",
       "typicalSection": "???"
     },
     "154": {
       "referenceAbbreviation": "JSA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "JoshA",
@@ -2615,6 +3283,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2622,11 +3292,66 @@
       "possibleAlternativeBooks": [
         "JOS"
       ],
-      "nameEnglish": "Joshua A",
+      "bookNameEnglishGuide": "Joshua A",
       "typicalSection": "???"
     },
     "155": {
+      "referenceAbbreviation": "JSB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": "JoshB",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "JsB",
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "24",
+      "possibleAlternativeBooks": [
+        "JOS"
+      ],
+      "bookNameEnglishGuide": "Joshua B",
+      "typicalSection": "???"
+    },
+    "156": {
+      "referenceAbbreviation": "JGA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": "JudgA",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "JdA",
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "21",
+      "possibleAlternativeBooks": [
+        "JDG"
+      ],
+      "bookNameEnglishGuide": "Judges A",
+      "typicalSection": "???"
+    },
+    "157": {
       "referenceAbbreviation": "JGB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "JudgB",
@@ -2636,6 +3361,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2643,11 +3370,14 @@
       "possibleAlternativeBooks": [
         "JDG"
       ],
-      "nameEnglish": "Judges B",
+      "bookNameEnglishGuide": "Judges B",
       "typicalSection": "???"
     },
-    "156": {
+    "158": {
       "referenceAbbreviation": "TBS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "TobS",
@@ -2657,6 +3387,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2664,11 +3396,14 @@
       "possibleAlternativeBooks": [
         "TOB"
       ],
-      "nameEnglish": "Tobit S",
+      "bookNameEnglishGuide": "Tobit S",
       "typicalSection": "???"
     },
-    "157": {
+    "159": {
       "referenceAbbreviation": "SST",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "SusTh",
@@ -2678,6 +3413,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2685,11 +3422,14 @@
       "possibleAlternativeBooks": [
         "SUS"
       ],
-      "nameEnglish": "Susanna \u03b8 / Susanna Th",
+      "bookNameEnglishGuide": "Susanna θ / Susanna Th",
       "typicalSection": "???"
     },
-    "158": {
+    "160": {
       "referenceAbbreviation": "DNT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "DanTh",
@@ -2699,6 +3439,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2709,11 +3451,14 @@
         "DNA",
         "DNC"
       ],
-      "nameEnglish": "Daniel \u03b8 / Daniel Th",
+      "bookNameEnglishGuide": "Daniel θ / Daniel Th",
       "typicalSection": "???"
     },
-    "159": {
+    "161": {
       "referenceAbbreviation": "BLT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "BelTh",
@@ -2723,6 +3468,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -2730,11 +3477,14 @@
       "possibleAlternativeBooks": [
         "BEL"
       ],
-      "nameEnglish": "Bel and the dragon \u03b8 / Bel and the dragon Th",
+      "bookNameEnglishGuide": "Bel and the dragon θ / Bel and the dragon Th",
       "typicalSection": "???"
     },
-    "160": {
+    "170": {
       "referenceAbbreviation": "GHE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2744,16 +3494,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of the Hebrews",
+      "bookNameEnglishGuide": "Gospel of the Hebrews",
       "typicalSection": "PS"
     },
-    "161": {
+    "171": {
       "referenceAbbreviation": "GTR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2763,16 +3518,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Truth",
+      "bookNameEnglishGuide": "Gospel of Truth",
       "typicalSection": "PS"
     },
-    "162": {
+    "172": {
       "referenceAbbreviation": "GMA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2782,16 +3542,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Mary",
+      "bookNameEnglishGuide": "Gospel of Mary",
       "typicalSection": "PS"
     },
-    "163": {
+    "173": {
       "referenceAbbreviation": "GMC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2801,16 +3566,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Marcion",
+      "bookNameEnglishGuide": "Gospel of Marcion",
       "typicalSection": "PS"
     },
-    "164": {
+    "174": {
       "referenceAbbreviation": "GTW",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2820,16 +3590,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of the Twelve",
+      "bookNameEnglishGuide": "Gospel of the Twelve",
       "typicalSection": "PS"
     },
-    "165": {
+    "175": {
       "referenceAbbreviation": "GPH",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2839,16 +3614,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Philip",
+      "bookNameEnglishGuide": "Gospel of Philip",
       "typicalSection": "PS"
     },
-    "166": {
+    "176": {
       "referenceAbbreviation": "GTH",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2858,16 +3638,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Thomas",
+      "bookNameEnglishGuide": "Gospel of Thomas",
       "typicalSection": "PS"
     },
-    "167": {
+    "177": {
       "referenceAbbreviation": "GJU",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2877,16 +3662,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Judas",
+      "bookNameEnglishGuide": "Gospel of Judas",
       "typicalSection": "PS"
     },
-    "168": {
+    "178": {
       "referenceAbbreviation": "GBA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2896,16 +3686,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Bartholomew",
+      "bookNameEnglishGuide": "Gospel of Bartholomew",
       "typicalSection": "PS"
     },
-    "169": {
+    "179": {
       "referenceAbbreviation": "AJA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2915,16 +3710,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocrypha of James / Apocryphal James",
+      "bookNameEnglishGuide": "Apocrypha of James / Apocryphal James",
       "typicalSection": "PS"
     },
-    "170": {
+    "180": {
       "referenceAbbreviation": "WJC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2934,16 +3734,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Wisdom of Jesus Christ",
+      "bookNameEnglishGuide": "Wisdom of Jesus Christ",
       "typicalSection": "PS"
     },
-    "180": {
+    "190": {
       "referenceAbbreviation": "TAD",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2953,16 +3758,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Adam",
+      "bookNameEnglishGuide": "Testament of Adam",
       "typicalSection": "PS"
     },
-    "181": {
+    "191": {
       "referenceAbbreviation": "LAE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2972,16 +3782,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Life of Adam and Eve",
+      "bookNameEnglishGuide": "Life of Adam and Eve",
       "typicalSection": "PS"
     },
-    "182": {
+    "192": {
       "referenceAbbreviation": "ASS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -2991,16 +3806,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Assumption of Moses / Testament of Moses",
+      "bookNameEnglishGuide": "Assumption of Moses / Testament of Moses",
       "typicalSection": "PS"
     },
-    "183": {
+    "193": {
       "referenceAbbreviation": "TSO",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3010,16 +3830,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Solomon",
+      "bookNameEnglishGuide": "Testament of Solomon",
       "typicalSection": "PS"
     },
-    "184": {
+    "194": {
       "referenceAbbreviation": "TJB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3029,16 +3854,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Job",
+      "bookNameEnglishGuide": "Testament of Job",
       "typicalSection": "PS"
     },
-    "185": {
+    "195": {
       "referenceAbbreviation": "MAI",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3048,16 +3878,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Martyrdom and Ascension of Isaiah",
+      "bookNameEnglishGuide": "Martyrdom and Ascension of Isaiah",
       "typicalSection": "PS"
     },
-    "186": {
+    "196": {
       "referenceAbbreviation": "AEZ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3067,16 +3902,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
+      "bookNameEnglishGuide": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
       "typicalSection": "PS"
     },
-    "187": {
+    "197": {
       "referenceAbbreviation": "EZT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3086,16 +3926,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ezekiel the Tragedian",
+      "bookNameEnglishGuide": "Ezekiel the Tragedian",
       "typicalSection": "PS"
     },
-    "188": {
+    "198": {
       "referenceAbbreviation": "EUP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3105,16 +3950,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Eupolemus",
+      "bookNameEnglishGuide": "Eupolemus",
       "typicalSection": "PS"
     },
-    "189": {
+    "199": {
       "referenceAbbreviation": "PEU",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3124,16 +3974,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Pseudo of Eupolemus / Pseudo-Eupolemus",
+      "bookNameEnglishGuide": "Pseudo of Eupolemus / Pseudo-Eupolemus",
       "typicalSection": "PS"
     },
-    "190": {
+    "200": {
       "referenceAbbreviation": "VAM",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3143,16 +3998,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Visions of Amram",
+      "bookNameEnglishGuide": "Visions of Amram",
       "typicalSection": "PS"
     },
-    "191": {
+    "201": {
       "referenceAbbreviation": "LAR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3162,16 +4022,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of Aristeas / Epistle of Aristeas",
+      "bookNameEnglishGuide": "Letter of Aristeas / Epistle of Aristeas",
       "typicalSection": "PS"
     },
-    "192": {
+    "202": {
       "referenceAbbreviation": "ARI",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3181,16 +4046,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Aristeas the Exegete",
+      "bookNameEnglishGuide": "Aristeas the Exegete",
       "typicalSection": "PS"
     },
-    "193": {
+    "203": {
       "referenceAbbreviation": "ABL",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3200,16 +4070,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Aristobulus",
+      "bookNameEnglishGuide": "Aristobulus",
       "typicalSection": "PS"
     },
-    "194": {
+    "204": {
       "referenceAbbreviation": "ART",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3219,16 +4094,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Artapanus",
+      "bookNameEnglishGuide": "Artapanus",
       "typicalSection": "PS"
     },
-    "195": {
+    "205": {
       "referenceAbbreviation": "CLM",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3238,16 +4118,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Cleodemus Malchus",
+      "bookNameEnglishGuide": "Cleodemus Malchus",
       "typicalSection": "PS"
     },
-    "196": {
+    "206": {
       "referenceAbbreviation": "ELM",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3257,16 +4142,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Eldad and Modad",
+      "bookNameEnglishGuide": "Eldad and Modad",
       "typicalSection": "PS"
     },
-    "197": {
+    "207": {
       "referenceAbbreviation": "HRE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3276,16 +4166,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "History of the Rechabites",
+      "bookNameEnglishGuide": "History of the Rechabites",
       "typicalSection": "PS"
     },
-    "198": {
+    "208": {
       "referenceAbbreviation": "LPR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3295,16 +4190,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Lives of the Prophets",
+      "bookNameEnglishGuide": "Lives of the Prophets",
       "typicalSection": "PS"
     },
-    "199": {
+    "209": {
       "referenceAbbreviation": "EPL",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3314,16 +4214,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philo the Epic Poet",
+      "bookNameEnglishGuide": "Philo the Epic Poet",
       "typicalSection": "PS"
     },
-    "200": {
+    "210": {
       "referenceAbbreviation": "TEO",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3333,16 +4238,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Theodotus",
+      "bookNameEnglishGuide": "Theodotus",
       "typicalSection": "PS"
     },
     "250": {
       "referenceAbbreviation": "TTP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr",
@@ -3352,16 +4262,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testaments of the Twelve Patriarchs",
+      "bookNameEnglishGuide": "Testaments of the Twelve Patriarchs",
       "typicalSection": "PS"
     },
     "251": {
       "referenceAbbreviation": "TSA",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TAsh",
@@ -3371,16 +4286,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Asher",
+      "bookNameEnglishGuide": "Testament of Asher",
       "typicalSection": "PS"
     },
     "252": {
       "referenceAbbreviation": "TSB",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TBenj",
@@ -3390,16 +4310,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Benjamin",
+      "bookNameEnglishGuide": "Testament of Benjamin",
       "typicalSection": "PS"
     },
     "253": {
       "referenceAbbreviation": "TSD",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TDan",
@@ -3409,16 +4334,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Dan",
+      "bookNameEnglishGuide": "Testament of Dan",
       "typicalSection": "PS"
     },
     "254": {
       "referenceAbbreviation": "TSG",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TGad",
@@ -3428,16 +4358,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Gad",
+      "bookNameEnglishGuide": "Testament of Gad",
       "typicalSection": "PS"
     },
     "255": {
       "referenceAbbreviation": "TSI",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TIss",
@@ -3447,16 +4382,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Issachar",
+      "bookNameEnglishGuide": "Testament of Issachar",
       "typicalSection": "PS"
     },
     "256": {
       "referenceAbbreviation": "TSJ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TJos",
@@ -3466,16 +4406,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Joseph",
+      "bookNameEnglishGuide": "Testament of Joseph",
       "typicalSection": "PS"
     },
     "257": {
       "referenceAbbreviation": "TSY",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TJud",
@@ -3485,16 +4430,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Judah",
+      "bookNameEnglishGuide": "Testament of Judah",
       "typicalSection": "PS"
     },
     "258": {
       "referenceAbbreviation": "TSL",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TLevi",
@@ -3504,16 +4454,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Levi",
+      "bookNameEnglishGuide": "Testament of Levi",
       "typicalSection": "PS"
     },
     "259": {
       "referenceAbbreviation": "TSN",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TNaph",
@@ -3523,16 +4478,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Naphtali",
+      "bookNameEnglishGuide": "Testament of Naphtali",
       "typicalSection": "PS"
     },
     "260": {
       "referenceAbbreviation": "TSR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TReu",
@@ -3542,16 +4502,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Reuben",
+      "bookNameEnglishGuide": "Testament of Reuben",
       "typicalSection": "PS"
     },
     "261": {
       "referenceAbbreviation": "TSS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TSim",
@@ -3561,16 +4526,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Simeon",
+      "bookNameEnglishGuide": "Testament of Simeon",
       "typicalSection": "PS"
     },
     "262": {
       "referenceAbbreviation": "TSZ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TZeb",
@@ -3580,16 +4550,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Zebulun",
+      "bookNameEnglishGuide": "Testament of Zebulun",
       "typicalSection": "PS"
     },
     "270": {
       "referenceAbbreviation": "JJW",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "JosephusJWvi",
@@ -3599,16 +4574,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Josephus Jewish War VI",
+      "bookNameEnglishGuide": "Josephus Jewish War VI",
       "typicalSection": "PS"
     },
     "280": {
       "referenceAbbreviation": "SHE",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -3618,16 +4598,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas",
+      "bookNameEnglishGuide": "Shepherd of Hermas",
       "typicalSection": "PS"
     },
     "281": {
       "referenceAbbreviation": "SHM",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -3637,16 +4622,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Mandates",
+      "bookNameEnglishGuide": "Shepherd of Hermas Mandates",
       "typicalSection": "PS"
     },
     "282": {
       "referenceAbbreviation": "SHS",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -3656,16 +4646,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Similitudes",
+      "bookNameEnglishGuide": "Shepherd of Hermas Similitudes",
       "typicalSection": "PS"
     },
     "283": {
       "referenceAbbreviation": "SHV",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -3675,16 +4670,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Visions",
+      "bookNameEnglishGuide": "Shepherd of Hermas Visions",
       "typicalSection": "PS"
     },
     "290": {
       "referenceAbbreviation": "IGE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnEph",
@@ -3694,16 +4694,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Ephesians",
+      "bookNameEnglishGuide": "Ignatius to the Ephesians",
       "typicalSection": "PS"
     },
     "291": {
       "referenceAbbreviation": "IGM",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnMagn",
@@ -3713,16 +4718,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Magnesians",
+      "bookNameEnglishGuide": "Ignatius to the Magnesians",
       "typicalSection": "PS"
     },
     "292": {
       "referenceAbbreviation": "IGT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnTrall",
@@ -3732,16 +4742,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Trallians",
+      "bookNameEnglishGuide": "Ignatius to the Trallians",
       "typicalSection": "PS"
     },
     "293": {
       "referenceAbbreviation": "IGR",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnRom",
@@ -3751,16 +4766,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Romans",
+      "bookNameEnglishGuide": "Ignatius to the Romans",
       "typicalSection": "PS"
     },
     "294": {
       "referenceAbbreviation": "IGP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnPhld",
@@ -3770,16 +4790,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Philadelphians",
+      "bookNameEnglishGuide": "Ignatius to the Philadelphians",
       "typicalSection": "PS"
     },
     "295": {
       "referenceAbbreviation": "IGS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnSmyrn",
@@ -3789,16 +4814,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Smyrnaeans",
+      "bookNameEnglishGuide": "Ignatius to the Smyrnaeans",
       "typicalSection": "PS"
     },
     "296": {
       "referenceAbbreviation": "IGC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnPol",
@@ -3808,16 +4838,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to Polycarp",
+      "bookNameEnglishGuide": "Ignatius to Polycarp",
       "typicalSection": "PS"
     },
     "297": {
       "referenceAbbreviation": "PCP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PolPhil",
@@ -3827,16 +4862,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Polycarp to the Philippians",
+      "bookNameEnglishGuide": "Polycarp to the Philippians",
       "typicalSection": "PS"
     },
     "298": {
       "referenceAbbreviation": "MPC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "MartPol",
@@ -3846,16 +4886,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Martydom of Polycarp",
+      "bookNameEnglishGuide": "Martydom of Polycarp",
       "typicalSection": "PS"
     },
     "300": {
       "referenceAbbreviation": "DIO",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Dio",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Diogn",
@@ -3865,16 +4910,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Diognetus",
+      "bookNameEnglishGuide": "Diognetus",
       "typicalSection": "PS"
     },
     "301": {
       "referenceAbbreviation": "APC",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "AposCreed",
@@ -3884,16 +4934,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apostles' Creed",
+      "bookNameEnglishGuide": "Apostles' Creed",
       "typicalSection": "PS"
     },
     "302": {
       "referenceAbbreviation": "FOP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PapFrag",
@@ -3903,16 +4958,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Fragments of Papias",
+      "bookNameEnglishGuide": "Fragments of Papias",
       "typicalSection": "PS"
     },
     "303": {
       "referenceAbbreviation": "ROE",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "RelElders",
@@ -3922,16 +4982,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Reliques of the Elders",
+      "bookNameEnglishGuide": "Reliques of the Elders",
       "typicalSection": "PS"
     },
     "304": {
       "referenceAbbreviation": "FOQ",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "QuadFrag",
@@ -3941,16 +5006,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Fragment of Quadratus",
+      "bookNameEnglishGuide": "Fragment of Quadratus",
       "typicalSection": "PS"
     },
     "310": {
       "referenceAbbreviation": "TAT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "TatDiat",
@@ -3960,16 +5030,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Tatian / Tatian's Diatessaron / Diatessaron",
+      "bookNameEnglishGuide": "Tatian / Tatian's Diatessaron / Diatessaron",
       "typicalSection": "PS"
     },
-    "600": {
-      "referenceAbbreviation": "MOS",
+    "400": {
+      "referenceAbbreviation": "P4D",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -3979,22 +5054,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "89",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "187",
-      "possibleAlternativeBooks": [
-        "GEN",
-        "EXO",
-        "LEV",
-        "NUM",
-        "DEU"
-      ],
-      "nameEnglish": "Books of Moses",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Plea for Deliverance",
+      "typicalSection": "DSS5"
     },
-    "610": {
-      "referenceAbbreviation": "SAM",
+    "401": {
+      "referenceAbbreviation": "A2Z",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4004,19 +5078,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "90",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "55",
-      "possibleAlternativeBooks": [
-        "SA1",
-        "SA2"
-      ],
-      "nameEnglish": "Samuel",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apostrophe to Zion",
+      "typicalSection": "DSS5"
     },
-    "620": {
-      "referenceAbbreviation": "KGS",
+    "402": {
+      "referenceAbbreviation": "EHY",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4026,19 +5102,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "91",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "47",
-      "possibleAlternativeBooks": [
-        "KI1",
-        "KI2"
-      ],
-      "nameEnglish": "Kings",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Eschatalogical Hymn",
+      "typicalSection": "DSS5"
     },
-    "625": {
-      "referenceAbbreviation": "SMK",
+    "403": {
+      "referenceAbbreviation": "A2J",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4048,23 +5126,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "92",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "102",
-      "possibleAlternativeBooks": [
-        "SAM",
-        "KGS",
-        "SA1",
-        "SA2",
-        "KI1",
-        "KI2"
-      ],
-      "nameEnglish": "Samuel-Kings",
-      "typicalSection": "NT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apostrophe to Judah",
+      "typicalSection": "DSS5"
     },
-    "630": {
-      "referenceAbbreviation": "CHR",
+    "404": {
+      "referenceAbbreviation": "H2C",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4074,41 +5150,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "93",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "65",
-      "possibleAlternativeBooks": [
-        "CH1",
-        "CH2"
-      ],
-      "nameEnglish": "Chronicles",
-      "typicalSection": "OT"
-    },
-    "640": {
-      "referenceAbbreviation": "EZN",
-      "SBLAbbreviation": "Ezra",
-      "OSISAbbreviation": "Ezra",
-      "SwordAbbreviation": "Ezra",
-      "CCELNumberString": null,
-      "USFMAbbreviation": "Ezr",
-      "USFMNumberString": "15",
-      "USXNumberString": null,
-      "UnboundCodeString": null,
-      "BibleditNumberString": null,
-      "NETBibleAbbreviation": "Ezr",
-      "DrupalBibleAbbreviation": "Ezr",
-      "ByzantineAbbreviation": null,
-      "numExpectedChapters": "26",
-      "possibleAlternativeBooks": [
-        "EZR",
-        "NEH"
-      ],
-      "nameEnglish": "Ezra-Nehemiah / 1 Esdras",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Hymn to the Creator",
+      "typicalSection": "DSS5"
     },
-    "650": {
-      "referenceAbbreviation": "P12",
+    "405": {
+      "referenceAbbreviation": "CMP",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4118,16 +5174,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "94",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Twelve Prophets",
-      "typicalSection": "OT"
+      "bookNameEnglishGuide": "David's Compositions",
+      "typicalSection": "DSS5"
     },
-    "690": {
-      "referenceAbbreviation": "LKA",
+    "406": {
+      "referenceAbbreviation": "APS",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4137,38 +5198,45 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "95",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "52",
-      "possibleAlternativeBooks": [
-        "LUK",
-        "ACT"
-      ],
-      "nameEnglish": "Luke-Acts",
-      "typicalSection": "NT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apocryphal Psalms",
+      "typicalSection": "DSS5"
     },
-    "700": {
-      "referenceAbbreviation": "FRT",
+    "407": {
+      "referenceAbbreviation": "CAT",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Frt",
-      "USFMNumberString": "A0",
-      "USXNumberString": "100",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "67",
+      "BibleditNumberString": null,
+      "LogosNumberString": "101",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Generic front matter",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Catena",
+      "typicalSection": "DSS5"
     },
-    "705": {
-      "referenceAbbreviation": "PRF",
+    "408": {
+      "referenceAbbreviation": "P1A",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4178,16 +5246,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "102",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Preface",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Psalm 151A",
+      "typicalSection": "DSS5"
     },
-    "710": {
-      "referenceAbbreviation": "ACK",
+    "409": {
+      "referenceAbbreviation": "P1B",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4197,35 +5270,51 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "103",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Acknowledgements",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Psalm 151B",
+      "typicalSection": "DSS5"
     },
-    "715": {
-      "referenceAbbreviation": "INT",
+    "600": {
+      "referenceAbbreviation": "MOS",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": "Mos",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Int",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "107",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Introduction",
-      "typicalSection": "FRT"
+      "numExpectedChapters": "187",
+      "possibleAlternativeBooks": [
+        "GEN",
+        "EXO",
+        "LEV",
+        "NUM",
+        "DEU"
+      ],
+      "bookNameEnglishGuide": "Book of the Pentateuch / Pentateuch / Torah / Books of Moses",
+      "typicalSection": "OT"
     },
-    "720": {
-      "referenceAbbreviation": "TOC",
+    "605": {
+      "referenceAbbreviation": "SAM",
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל",
+      "shortAbbreviation": "Sam",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4235,54 +5324,82 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Table of Contents",
-      "typicalSection": "FRT"
+      "numExpectedChapters": "55",
+      "possibleAlternativeBooks": [
+        "SA1",
+        "SA2"
+      ],
+      "bookNameEnglishGuide": "Samuel",
+      "typicalSection": "OT"
     },
-    "725": {
-      "referenceAbbreviation": "GLS",
+    "610": {
+      "referenceAbbreviation": "KGS",
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים",
+      "shortAbbreviation": "Ki",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Glo",
-      "USFMNumberString": "A9",
-      "USXNumberString": "109",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Glossary",
-      "typicalSection": "BAK"
+      "numExpectedChapters": "47",
+      "possibleAlternativeBooks": [
+        "KI1",
+        "KI2"
+      ],
+      "bookNameEnglishGuide": "Kings",
+      "typicalSection": "OT"
     },
-    "730": {
-      "referenceAbbreviation": "CNC",
+    "615": {
+      "referenceAbbreviation": "SMK",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Cnc",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Concordance",
-      "typicalSection": "BAK"
+      "numExpectedChapters": "102",
+      "possibleAlternativeBooks": [
+        "SAM",
+        "KGS",
+        "SA1",
+        "SA2",
+        "KI1",
+        "KI2"
+      ],
+      "bookNameEnglishGuide": "Samuel-Kings",
+      "typicalSection": "NT"
     },
-    "735": {
-      "referenceAbbreviation": "TPC",
+    "620": {
+      "referenceAbbreviation": "CHR",
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים",
+      "shortAbbreviation": "Chr",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4292,35 +5409,89 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Topical Concordance",
-      "typicalSection": "BAK"
-    },
-    "740": {
-      "referenceAbbreviation": "IXN",
+      "numExpectedChapters": "65",
+      "possibleAlternativeBooks": [
+        "CH1",
+        "CH2"
+      ],
+      "bookNameEnglishGuide": "Chronicles",
+      "typicalSection": "OT"
+    },
+    "625": {
+      "referenceAbbreviation": "EZN",
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": "Ezra",
+      "OSISAbbreviation": "Ezra",
+      "SwordAbbreviation": "Ezra",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "Ezr",
+      "USFMNumberString": "15",
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": "Ezr",
+      "DrupalBibleAbbreviation": "Ezr",
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "26",
+      "possibleAlternativeBooks": [
+        "EZR",
+        "NEH"
+      ],
+      "bookNameEnglishGuide": "Ezra-Nehemiah / 1 Esdras",
+      "typicalSection": "OT"
+    },
+    "630": {
+      "referenceAbbreviation": "P12",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "NDX",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "111",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Names Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "SPR",
+        "HOS",
+        "JOL",
+        "AMO",
+        "OBA",
+        "JNA",
+        "MIC",
+        "NAH",
+        "HAB",
+        "ZEP",
+        "HAG",
+        "ZEC",
+        "MAL"
+      ],
+      "bookNameEnglishGuide": "Twelve Prophets",
+      "typicalSection": "OT"
     },
-    "745": {
-      "referenceAbbreviation": "IXP",
+    "640": {
+      "referenceAbbreviation": "WOM",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4330,16 +5501,26 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Places Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "RUT",
+        "SUS",
+        "EST",
+        "JDT"
+      ],
+      "bookNameEnglishGuide": "Book of Women",
+      "typicalSection": "OT"
     },
-    "750": {
-      "referenceAbbreviation": "MAP",
+    "645": {
+      "referenceAbbreviation": "SES",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4349,73 +5530,165 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Maps",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "JOS",
+        "JDG",
+        "SA1",
+        "SA2",
+        "KI1",
+        "KI2",
+        "PRO",
+        "ECC",
+        "RUT",
+        "SNG",
+        "SIR",
+        "JOB"
+      ],
+      "bookNameEnglishGuide": "Book of Sessions",
+      "typicalSection": "OT"
     },
-    "755": {
-      "referenceAbbreviation": "IXT",
+    "650": {
+      "referenceAbbreviation": "SPR",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "TDX",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "110",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Thematic Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "P12",
+        "ISA",
+        "JER",
+        "LAM",
+        "HOS",
+        "JOL",
+        "AMO",
+        "OBA",
+        "JNA",
+        "MIC",
+        "NAH",
+        "HAB",
+        "ZEP",
+        "HAG",
+        "ZEC",
+        "MAL"
+      ],
+      "bookNameEnglishGuide": "Book of the Prophets",
+      "typicalSection": "OT"
     },
-    "760": {
-      "referenceAbbreviation": "BAK",
+    "655": {
+      "referenceAbbreviation": "SMC",
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Bak",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "101",
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "68",
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Generic back matter",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "MA1",
+        "MA2",
+        "MA3",
+        "CH1",
+        "CH2",
+        "EZR",
+        "NEH",
+        "WIS",
+        "JDT",
+        "EST",
+        "SUS",
+        "LJE",
+        "LBA",
+        "BAR"
+      ],
+      "bookNameEnglishGuide": "Book of the Maccabees",
+      "typicalSection": "OT"
     },
-    "870": {
-      "referenceAbbreviation": "OTH",
+    "690": {
+      "referenceAbbreviation": "LKA",
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Oth",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "52",
+      "possibleAlternativeBooks": [
+        "LUK",
+        "ACT"
+      ],
+      "bookNameEnglishGuide": "Luke-Acts",
+      "typicalSection": "NT"
+    },
+    "700": {
+      "referenceAbbreviation": "FRT",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Generic front matter)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "Frt",
+      "USFMNumberString": "A0",
+      "USXNumberString": "100",
+      "UnboundCodeString": null,
+      "BibleditNumberString": "67",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified other OTH",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Generic front matter",
+      "typicalSection": "FRT"
     },
-    "880": {
-      "referenceAbbreviation": "WRD",
+    "705": {
+      "referenceAbbreviation": "PRF",
+      "originalLanguageCode": "(None)",
+      "bookName": "Preface",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4425,16 +5698,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Spelling dictionary / word list",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Preface",
+      "typicalSection": "FRT"
     },
-    "882": {
-      "referenceAbbreviation": "WDF",
+    "710": {
+      "referenceAbbreviation": "ACK",
+      "originalLanguageCode": "(None)",
+      "bookName": "Acknowledgements",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4444,35 +5722,45 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": " Word definitions dictionary",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Acknowledgements",
+      "typicalSection": "FRT"
     },
-    "884": {
-      "referenceAbbreviation": "HYP",
+    "715": {
+      "referenceAbbreviation": "INT",
+      "originalLanguageCode": "(None)",
+      "bookName": "Introduction",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
+      "USFMAbbreviation": "Int",
       "USFMNumberString": null,
-      "USXNumberString": null,
+      "USXNumberString": "107",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hyphenation dictionary",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Introduction",
+      "typicalSection": "FRT"
     },
-    "888": {
-      "referenceAbbreviation": "STR",
+    "720": {
+      "referenceAbbreviation": "TOC",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Table of Contents)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4482,187 +5770,237 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Strong's Database",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Table of Contents",
+      "typicalSection": "FRT"
     },
-    "890": {
-      "referenceAbbreviation": "SEM",
+    "725": {
+      "referenceAbbreviation": "GLS",
+      "originalLanguageCode": "(None)",
+      "bookName": "Glossary",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
-      "USFMNumberString": null,
-      "USXNumberString": null,
+      "USFMAbbreviation": "Glo",
+      "USFMNumberString": "A9",
+      "USXNumberString": "109",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Semantic Database",
+      "bookNameEnglishGuide": "Glossary",
       "typicalSection": "BAK"
     },
-    "800": {
-      "referenceAbbreviation": "XXA",
+    "730": {
+      "referenceAbbreviation": "CNC",
+      "originalLanguageCode": "(None)",
+      "bookName": "Concordance",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXA",
-      "USFMNumberString": "94",
-      "USXNumberString": "093",
+      "USFMAbbreviation": "Cnc",
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "69",
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXA",
+      "bookNameEnglishGuide": "Concordance",
       "typicalSection": "BAK"
     },
-    "810": {
-      "referenceAbbreviation": "XXB",
+    "735": {
+      "referenceAbbreviation": "TPC",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Topical Concordance)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXB",
-      "USFMNumberString": "95",
-      "USXNumberString": "094",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXB",
+      "bookNameEnglishGuide": "Topical Concordance",
       "typicalSection": "BAK"
     },
-    "820": {
-      "referenceAbbreviation": "XXC",
+    "740": {
+      "referenceAbbreviation": "IXN",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Names Index)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXC",
-      "USFMNumberString": "96",
-      "USXNumberString": "095",
+      "USFMAbbreviation": "NDX",
+      "USFMNumberString": null,
+      "USXNumberString": "111",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXC",
+      "bookNameEnglishGuide": "Names Index",
       "typicalSection": "BAK"
     },
-    "830": {
-      "referenceAbbreviation": "XXD",
+    "745": {
+      "referenceAbbreviation": "IXP",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Places Index)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXD",
-      "USFMNumberString": "97",
-      "USXNumberString": "096",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXD",
+      "bookNameEnglishGuide": "Places Index",
       "typicalSection": "BAK"
     },
-    "840": {
-      "referenceAbbreviation": "XXE",
+    "750": {
+      "referenceAbbreviation": "MAP",
+      "originalLanguageCode": "(None)",
+      "bookName": "Maps",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXE",
-      "USFMNumberString": "98",
-      "USXNumberString": "097",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXE",
+      "bookNameEnglishGuide": "Maps",
       "typicalSection": "BAK"
     },
-    "850": {
-      "referenceAbbreviation": "XXF",
+    "755": {
+      "referenceAbbreviation": "IXT",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Thematic Index)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXF",
-      "USFMNumberString": "99",
-      "USXNumberString": "098",
+      "USFMAbbreviation": "TDX",
+      "USFMNumberString": null,
+      "USXNumberString": "110",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXF",
+      "bookNameEnglishGuide": "Thematic Index",
       "typicalSection": "BAK"
     },
-    "860": {
-      "referenceAbbreviation": "XXG",
+    "760": {
+      "referenceAbbreviation": "BAK",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Generic back matter)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXG",
+      "USFMAbbreviation": "Bak",
       "USFMNumberString": null,
-      "USXNumberString": "099",
+      "USXNumberString": "101",
       "UnboundCodeString": null,
-      "BibleditNumberString": null,
+      "BibleditNumberString": "68",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXG",
+      "bookNameEnglishGuide": "Generic back matter",
       "typicalSection": "BAK"
     },
-    "997": {
-      "referenceAbbreviation": "OBS",
+    "870": {
+      "referenceAbbreviation": "OTH",
+      "originalLanguageCode": "(None)",
+      "bookName": "(OTHER)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
+      "USFMAbbreviation": "Oth",
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "50",
+      "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Open Bible Stories",
-      "typicalSection": "???"
+      "bookNameEnglishGuide": "Unspecified other OTH",
+      "typicalSection": "BAK"
     },
-    "998": {
-      "referenceAbbreviation": "TST",
+    "880": {
+      "referenceAbbreviation": "WRD",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Spelling dictionary / word list)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4672,16 +6010,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "TEST",
-      "typicalSection": "???"
+      "bookNameEnglishGuide": "Spelling dictionary / word list",
+      "typicalSection": "BAK"
     },
-    "999": {
-      "referenceAbbreviation": "UNK",
+    "882": {
+      "referenceAbbreviation": "WDF",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Word definitions dictionary)",
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -4691,19 +6034,336 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "UNKNOWN",
-      "typicalSection": "???"
-    }
-  },
-  "referenceAbbreviationDict": {
-    "GEN": {
-      "referenceNumber": 1,
-      "SBLAbbreviation": "Gen",
+      "bookNameEnglishGuide": "Word definitions dictionary",
+      "typicalSection": "BAK"
+    },
+    "884": {
+      "referenceAbbreviation": "HYP",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Hyphenation dictionary)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Hyphenation dictionary",
+      "typicalSection": "BAK"
+    },
+    "888": {
+      "referenceAbbreviation": "STR",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Strong's Database)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Strong's Database",
+      "typicalSection": "BAK"
+    },
+    "890": {
+      "referenceAbbreviation": "SEM",
+      "originalLanguageCode": "(None)",
+      "bookName": "(Semantic Database)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Semantic Database",
+      "typicalSection": "BAK"
+    },
+    "800": {
+      "referenceAbbreviation": "XXA",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXA)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXA",
+      "USFMNumberString": "94",
+      "USXNumberString": "093",
+      "UnboundCodeString": null,
+      "BibleditNumberString": "69",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXA",
+      "typicalSection": "BAK"
+    },
+    "810": {
+      "referenceAbbreviation": "XXB",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXB)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXB",
+      "USFMNumberString": "95",
+      "USXNumberString": "094",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXB",
+      "typicalSection": "BAK"
+    },
+    "820": {
+      "referenceAbbreviation": "XXC",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXC)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXC",
+      "USFMNumberString": "96",
+      "USXNumberString": "095",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXC",
+      "typicalSection": "BAK"
+    },
+    "830": {
+      "referenceAbbreviation": "XXD",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXD)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXD",
+      "USFMNumberString": "97",
+      "USXNumberString": "096",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXD",
+      "typicalSection": "BAK"
+    },
+    "840": {
+      "referenceAbbreviation": "XXE",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXE)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXE",
+      "USFMNumberString": "98",
+      "USXNumberString": "097",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXE",
+      "typicalSection": "BAK"
+    },
+    "850": {
+      "referenceAbbreviation": "XXF",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXF)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXF",
+      "USFMNumberString": "99",
+      "USXNumberString": "098",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXF",
+      "typicalSection": "BAK"
+    },
+    "860": {
+      "referenceAbbreviation": "XXG",
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXG)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXG",
+      "USFMNumberString": null,
+      "USXNumberString": "099",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXG",
+      "typicalSection": "BAK"
+    },
+    "997": {
+      "referenceAbbreviation": "OBS",
+      "originalLanguageCode": "(None)",
+      "bookName": "Open Bible Stories",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "50",
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Open Bible Stories",
+      "typicalSection": "???"
+    },
+    "998": {
+      "referenceAbbreviation": "TST",
+      "originalLanguageCode": "(None)",
+      "bookName": "(TEST)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "TEST",
+      "typicalSection": "???"
+    },
+    "999": {
+      "referenceAbbreviation": "UNK",
+      "originalLanguageCode": "(None)",
+      "bookName": "(UNKNOWN)",
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "UNKNOWN",
+      "typicalSection": "???"
+    }
+  },
+  "referenceAbbreviationDict": {
+    "GEN": {
+      "originalLanguageCode": "hbo",
+      "bookName": "בְּרֵאשִׁית",
+      "referenceNumber": 1,
+      "shortAbbreviation": "Ge",
+      "SBLAbbreviation": "Gen",
       "OSISAbbreviation": "Gen",
       "SwordAbbreviation": "Gen",
       "CCELNumberString": "1",
@@ -4712,16 +6372,21 @@
       "USXNumberString": "001",
       "UnboundCodeString": "01O",
       "BibleditNumberString": "1",
+      "LogosNumberString": "1",
+      "LogosAbbreviation": "Ge",
       "NETBibleAbbreviation": "Gen",
       "DrupalBibleAbbreviation": "Gen",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "50",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Genesis / 1 Moses",
+      "bookNameEnglishGuide": "Genesis / 1 Moses",
       "typicalSection": "OT"
     },
     "EXO": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמֹות",
       "referenceNumber": 2,
+      "shortAbbreviation": "Ex",
       "SBLAbbreviation": "Exod",
       "OSISAbbreviation": "Exod",
       "SwordAbbreviation": "Exod",
@@ -4731,16 +6396,21 @@
       "USXNumberString": "002",
       "UnboundCodeString": "02O",
       "BibleditNumberString": "2",
+      "LogosNumberString": "2",
+      "LogosAbbreviation": "Ex",
       "NETBibleAbbreviation": "Exo",
       "DrupalBibleAbbreviation": "Exo",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "40",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Exodus / 2 Moses",
+      "bookNameEnglishGuide": "Exodus / 2 Moses",
       "typicalSection": "OT"
     },
     "LEV": {
+      "originalLanguageCode": "hbo",
+      "bookName": "וַיִּקְרָא",
       "referenceNumber": 3,
+      "shortAbbreviation": "Le",
       "SBLAbbreviation": "Lev",
       "OSISAbbreviation": "Lev",
       "SwordAbbreviation": "Lev",
@@ -4750,16 +6420,21 @@
       "USXNumberString": "003",
       "UnboundCodeString": "03O",
       "BibleditNumberString": "3",
+      "LogosNumberString": "3",
+      "LogosAbbreviation": "Le",
       "NETBibleAbbreviation": "Lev",
       "DrupalBibleAbbreviation": "Lev",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "27",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Leviticus / 3 Moses",
+      "bookNameEnglishGuide": "Leviticus / 3 Moses",
       "typicalSection": "OT"
     },
     "NUM": {
+      "originalLanguageCode": "hbo",
+      "bookName": "בְּמִדְבַּר",
       "referenceNumber": 4,
+      "shortAbbreviation": "Nu",
       "SBLAbbreviation": "Num",
       "OSISAbbreviation": "Num",
       "SwordAbbreviation": "Num",
@@ -4769,16 +6444,21 @@
       "USXNumberString": "004",
       "UnboundCodeString": "04O",
       "BibleditNumberString": "4",
+      "LogosNumberString": "4",
+      "LogosAbbreviation": "Nu",
       "NETBibleAbbreviation": "Num",
       "DrupalBibleAbbreviation": "Num",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Numbers / 4 Moses",
+      "bookNameEnglishGuide": "Numbers / 4 Moses",
       "typicalSection": "OT"
     },
     "DEU": {
+      "originalLanguageCode": "hbo",
+      "bookName": "דְּבָרִים",
       "referenceNumber": 5,
+      "shortAbbreviation": "Dt",
       "SBLAbbreviation": "Deut",
       "OSISAbbreviation": "Deut",
       "SwordAbbreviation": "Deut",
@@ -4788,16 +6468,21 @@
       "USXNumberString": "005",
       "UnboundCodeString": "05O",
       "BibleditNumberString": "5",
+      "LogosNumberString": "5",
+      "LogosAbbreviation": "Dt",
       "NETBibleAbbreviation": "Deu",
       "DrupalBibleAbbreviation": "Deu",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "34",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Deuteronomy / 5 Moses",
+      "bookNameEnglishGuide": "Deuteronomy / 5 Moses",
       "typicalSection": "OT"
     },
     "JOS": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יְהוֹשֻעַ",
       "referenceNumber": 6,
+      "shortAbbreviation": "Jos",
       "SBLAbbreviation": "Josh",
       "OSISAbbreviation": "Josh",
       "SwordAbbreviation": "Josh",
@@ -4807,6 +6492,8 @@
       "USXNumberString": "006",
       "UnboundCodeString": "06O",
       "BibleditNumberString": "6",
+      "LogosNumberString": "6",
+      "LogosAbbreviation": "Jos",
       "NETBibleAbbreviation": "Jos",
       "DrupalBibleAbbreviation": "Jos",
       "ByzantineAbbreviation": null,
@@ -4814,11 +6501,14 @@
       "possibleAlternativeBooks": [
         "JSA"
       ],
-      "nameEnglish": "Joshua / Joshua son of Nun",
+      "bookNameEnglishGuide": "Joshua / Joshua son of Nun",
       "typicalSection": "OT"
     },
     "JDG": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שֹׁפְטִים",
       "referenceNumber": 7,
+      "shortAbbreviation": "Jdg",
       "SBLAbbreviation": "Judg",
       "OSISAbbreviation": "Judg",
       "SwordAbbreviation": "Judg",
@@ -4828,6 +6518,8 @@
       "USXNumberString": "007",
       "UnboundCodeString": "07O",
       "BibleditNumberString": "7",
+      "LogosNumberString": "7",
+      "LogosAbbreviation": "Jdg",
       "NETBibleAbbreviation": "Jdg",
       "DrupalBibleAbbreviation": "Jug",
       "ByzantineAbbreviation": null,
@@ -4835,11 +6527,14 @@
       "possibleAlternativeBooks": [
         "JGB"
       ],
-      "nameEnglish": "Judges",
+      "bookNameEnglishGuide": "Judges",
       "typicalSection": "OT"
     },
     "RUT": {
+      "originalLanguageCode": "hbo",
+      "bookName": "רוּת",
       "referenceNumber": 8,
+      "shortAbbreviation": "Ru",
       "SBLAbbreviation": "Ruth",
       "OSISAbbreviation": "Ruth",
       "SwordAbbreviation": "Ruth",
@@ -4849,16 +6544,21 @@
       "USXNumberString": "008",
       "UnboundCodeString": "08O",
       "BibleditNumberString": "8",
+      "LogosNumberString": "8",
+      "LogosAbbreviation": "Ru",
       "NETBibleAbbreviation": "Rut",
       "DrupalBibleAbbreviation": "Rut",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ruth",
+      "bookNameEnglishGuide": "Ruth",
       "typicalSection": "OT"
     },
     "SA1": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל א",
       "referenceNumber": 9,
+      "shortAbbreviation": "1Sa",
       "SBLAbbreviation": "1 Sam",
       "OSISAbbreviation": "1Sam",
       "SwordAbbreviation": "1Sam",
@@ -4868,16 +6568,21 @@
       "USXNumberString": "009",
       "UnboundCodeString": "09O",
       "BibleditNumberString": "9",
+      "LogosNumberString": "9",
+      "LogosAbbreviation": "1Sa",
       "NETBibleAbbreviation": "1Sa",
       "DrupalBibleAbbreviation": "1Sm",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Samuel / 1 Kingdoms / 1 Kings",
+      "bookNameEnglishGuide": "1 Samuel / 1 Kingdoms / 1 Kings",
       "typicalSection": "OT"
     },
     "SA2": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל ב",
       "referenceNumber": 10,
+      "shortAbbreviation": "2Sa",
       "SBLAbbreviation": "2 Sam",
       "OSISAbbreviation": "2Sam",
       "SwordAbbreviation": "2Sam",
@@ -4887,16 +6592,21 @@
       "USXNumberString": "010",
       "UnboundCodeString": "10O",
       "BibleditNumberString": "10",
+      "LogosNumberString": "10",
+      "LogosAbbreviation": "2Sa",
       "NETBibleAbbreviation": "2Sa",
       "DrupalBibleAbbreviation": "2Sm",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "24",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Samuel / 2 Kingdoms / 2 Kings",
+      "bookNameEnglishGuide": "2 Samuel / 2 Kingdoms / 2 Kings",
       "typicalSection": "OT"
     },
     "KI1": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים א",
       "referenceNumber": 11,
+      "shortAbbreviation": "1Ki",
       "SBLAbbreviation": "1 Kgs",
       "OSISAbbreviation": "1Kgs",
       "SwordAbbreviation": "1Kgs",
@@ -4906,16 +6616,21 @@
       "USXNumberString": "011",
       "UnboundCodeString": "11O",
       "BibleditNumberString": "11",
+      "LogosNumberString": "11",
+      "LogosAbbreviation": "1Ki",
       "NETBibleAbbreviation": "1Ki",
       "DrupalBibleAbbreviation": "1Kg",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "22",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Kings / 3 Kingdoms / 3 Kings",
+      "bookNameEnglishGuide": "1 Kings / 3 Kingdoms / 3 Kings",
       "typicalSection": "OT"
     },
     "KI2": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים ב",
       "referenceNumber": 12,
+      "shortAbbreviation": "2Ki",
       "SBLAbbreviation": "2 Kgs",
       "OSISAbbreviation": "2Kgs",
       "SwordAbbreviation": "2Kgs",
@@ -4925,16 +6640,21 @@
       "USXNumberString": "012",
       "UnboundCodeString": "12O",
       "BibleditNumberString": "12",
+      "LogosNumberString": "12",
+      "LogosAbbreviation": "2Ki",
       "NETBibleAbbreviation": "2Ki",
       "DrupalBibleAbbreviation": "2Kg",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "25",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Kings / 4 Kingdoms / 4 Kings",
+      "bookNameEnglishGuide": "2 Kings / 4 Kingdoms / 4 Kings",
       "typicalSection": "OT"
     },
     "CH1": {
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים א",
       "referenceNumber": 13,
+      "shortAbbreviation": "1Ch",
       "SBLAbbreviation": "1 Chr",
       "OSISAbbreviation": "1Chr",
       "SwordAbbreviation": "1Chr",
@@ -4944,16 +6664,21 @@
       "USXNumberString": "013",
       "UnboundCodeString": "13O",
       "BibleditNumberString": "13",
+      "LogosNumberString": "13",
+      "LogosAbbreviation": "1Ch",
       "NETBibleAbbreviation": "1Ch",
       "DrupalBibleAbbreviation": "1Ch",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "29",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Chronicles / 1 Paralipomenon",
+      "bookNameEnglishGuide": "1 Chronicles / 1 Paralipomenon",
       "typicalSection": "OT"
     },
     "CH2": {
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים ב",
       "referenceNumber": 14,
+      "shortAbbreviation": "2Ch",
       "SBLAbbreviation": "2 Chr",
       "OSISAbbreviation": "2Chr",
       "SwordAbbreviation": "2Chr",
@@ -4963,16 +6688,21 @@
       "USXNumberString": "014",
       "UnboundCodeString": "14O",
       "BibleditNumberString": "14",
+      "LogosNumberString": "14",
+      "LogosAbbreviation": "2Ch",
       "NETBibleAbbreviation": "2Ch",
       "DrupalBibleAbbreviation": "2Ch",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36,37",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Chronicles / 2 Paralipomenon",
+      "bookNameEnglishGuide": "2 Chronicles / 2 Paralipomenon",
       "typicalSection": "OT"
     },
     "EZR": {
+      "originalLanguageCode": "hbo",
+      "bookName": "עֶזְרָא",
       "referenceNumber": 15,
+      "shortAbbreviation": "Ezr",
       "SBLAbbreviation": "Ezra",
       "OSISAbbreviation": "Ezra",
       "SwordAbbreviation": "Ezra",
@@ -4982,6 +6712,8 @@
       "USXNumberString": "015",
       "UnboundCodeString": "15O",
       "BibleditNumberString": "15",
+      "LogosNumberString": "15",
+      "LogosAbbreviation": "Ezr",
       "NETBibleAbbreviation": "Ezr",
       "DrupalBibleAbbreviation": "Ezr",
       "ByzantineAbbreviation": null,
@@ -4989,11 +6721,14 @@
       "possibleAlternativeBooks": [
         "EZN"
       ],
-      "nameEnglish": "Ezra / 1 Ezra / 1 Esdras",
+      "bookNameEnglishGuide": "Ezra / 1 Ezra / 1 Esdras",
       "typicalSection": "OT"
     },
     "NEH": {
+      "originalLanguageCode": "hbo",
+      "bookName": "נְחֶמְיָה",
       "referenceNumber": 16,
+      "shortAbbreviation": "Ne",
       "SBLAbbreviation": "Neh",
       "OSISAbbreviation": "Neh",
       "SwordAbbreviation": "Neh",
@@ -5003,6 +6738,8 @@
       "USXNumberString": "016",
       "UnboundCodeString": "16O",
       "BibleditNumberString": "16",
+      "LogosNumberString": "16",
+      "LogosAbbreviation": "Ne",
       "NETBibleAbbreviation": "Neh",
       "DrupalBibleAbbreviation": "Neh",
       "ByzantineAbbreviation": null,
@@ -5010,11 +6747,14 @@
       "possibleAlternativeBooks": [
         "EZN"
       ],
-      "nameEnglish": "Nehemiah / 2 Ezra / 2 Esdras",
+      "bookNameEnglishGuide": "Nehemiah / 2 Ezra / 2 Esdras",
       "typicalSection": "OT"
     },
     "EST": {
+      "originalLanguageCode": "hbo",
+      "bookName": "אֶסְתֵר",
       "referenceNumber": 17,
+      "shortAbbreviation": "Es",
       "SBLAbbreviation": "Esth",
       "OSISAbbreviation": "Esth",
       "SwordAbbreviation": "Esth",
@@ -5024,6 +6764,8 @@
       "USXNumberString": "017",
       "UnboundCodeString": "17O",
       "BibleditNumberString": "17",
+      "LogosNumberString": "17",
+      "LogosAbbreviation": "Es",
       "NETBibleAbbreviation": "Est",
       "DrupalBibleAbbreviation": "Est",
       "ByzantineAbbreviation": null,
@@ -5033,11 +6775,14 @@
         "ESA",
         "ESC"
       ],
-      "nameEnglish": "Esther",
+      "bookNameEnglishGuide": "Esther",
       "typicalSection": "OT"
     },
     "JOB": {
+      "originalLanguageCode": "hbo",
+      "bookName": "אִיּוֹב",
       "referenceNumber": 18,
+      "shortAbbreviation": "Jb",
       "SBLAbbreviation": "Job",
       "OSISAbbreviation": "Job",
       "SwordAbbreviation": "Job",
@@ -5047,16 +6792,21 @@
       "USXNumberString": "018",
       "UnboundCodeString": "18O",
       "BibleditNumberString": "18",
+      "LogosNumberString": "18",
+      "LogosAbbreviation": "Job",
       "NETBibleAbbreviation": "Job",
       "DrupalBibleAbbreviation": "Job",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "42",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Job",
+      "bookNameEnglishGuide": "Job",
       "typicalSection": "OT"
     },
     "PSA": {
+      "originalLanguageCode": "hbo",
+      "bookName": "תְהִלִּים",
       "referenceNumber": 19,
+      "shortAbbreviation": "Ps",
       "SBLAbbreviation": "Ps",
       "OSISAbbreviation": "Ps",
       "SwordAbbreviation": "Ps",
@@ -5066,6 +6816,8 @@
       "USXNumberString": "019",
       "UnboundCodeString": "19O",
       "BibleditNumberString": "19",
+      "LogosNumberString": "19",
+      "LogosAbbreviation": "Ps",
       "NETBibleAbbreviation": "Psa",
       "DrupalBibleAbbreviation": "Ps",
       "ByzantineAbbreviation": null,
@@ -5077,11 +6829,14 @@
         "PB4",
         "PB5"
       ],
-      "nameEnglish": "Psalms / Gallicanum / Psalms A",
+      "bookNameEnglishGuide": "Psalms / Gallicanum / Psalms A",
       "typicalSection": "OT"
     },
     "PRO": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מִשְׁלֵי",
       "referenceNumber": 20,
+      "shortAbbreviation": "Pr",
       "SBLAbbreviation": "Prov",
       "OSISAbbreviation": "Prov",
       "SwordAbbreviation": "Prov",
@@ -5091,16 +6846,21 @@
       "USXNumberString": "020",
       "UnboundCodeString": "20O",
       "BibleditNumberString": "20",
+      "LogosNumberString": "20",
+      "LogosAbbreviation": "Pr",
       "NETBibleAbbreviation": "Pro",
       "DrupalBibleAbbreviation": "Pro",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Proverbs",
+      "bookNameEnglishGuide": "Proverbs",
       "typicalSection": "OT"
     },
     "ECC": {
+      "originalLanguageCode": "hbo",
+      "bookName": "קֹהֶלֶת",
       "referenceNumber": 21,
+      "shortAbbreviation": "Ec",
       "SBLAbbreviation": "Eccl",
       "OSISAbbreviation": "Eccl",
       "SwordAbbreviation": "Eccl",
@@ -5110,16 +6870,21 @@
       "USXNumberString": "021",
       "UnboundCodeString": "21O",
       "BibleditNumberString": "21",
+      "LogosNumberString": "21",
+      "LogosAbbreviation": "Ec",
       "NETBibleAbbreviation": "Ecc",
       "DrupalBibleAbbreviation": "Ecc",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "12",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ecclesiastes / Qoholeth",
+      "bookNameEnglishGuide": "Ecclesiastes / Qoholeth",
       "typicalSection": "OT"
     },
     "SNG": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שִׁיר הַשִּׁירִים",
       "referenceNumber": 22,
+      "shortAbbreviation": "So",
       "SBLAbbreviation": "Song",
       "OSISAbbreviation": "Song",
       "SwordAbbreviation": "Song",
@@ -5129,16 +6894,21 @@
       "USXNumberString": "022",
       "UnboundCodeString": "22O",
       "BibleditNumberString": "22",
+      "LogosNumberString": "22",
+      "LogosAbbreviation": "So",
       "NETBibleAbbreviation": "Sos",
       "DrupalBibleAbbreviation": "Son",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "8",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Song of Solomon / Song of Songs / Canticles / Canticle of Canticles",
+      "bookNameEnglishGuide": "Song of Solomon / Song of Songs / Canticles / Canticle of Canticles",
       "typicalSection": "OT"
     },
     "ISA": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יְשַׁעְיָהוּ",
       "referenceNumber": 23,
+      "shortAbbreviation": "Is",
       "SBLAbbreviation": "Isa",
       "OSISAbbreviation": "Isa",
       "SwordAbbreviation": "Isa",
@@ -5148,16 +6918,21 @@
       "USXNumberString": "023",
       "UnboundCodeString": "23O",
       "BibleditNumberString": "23",
+      "LogosNumberString": "23",
+      "LogosAbbreviation": "Is",
       "NETBibleAbbreviation": "Isa",
       "DrupalBibleAbbreviation": "Isa",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "66",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Isaiah",
+      "bookNameEnglishGuide": "Isaiah",
       "typicalSection": "OT"
     },
     "JER": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יִרְמְיָהוּ",
       "referenceNumber": 24,
+      "shortAbbreviation": "Je",
       "SBLAbbreviation": "Jer",
       "OSISAbbreviation": "Jer",
       "SwordAbbreviation": "Jer",
@@ -5167,16 +6942,21 @@
       "USXNumberString": "024",
       "UnboundCodeString": "24O",
       "BibleditNumberString": "24",
+      "LogosNumberString": "24",
+      "LogosAbbreviation": "Je",
       "NETBibleAbbreviation": "Jer",
       "DrupalBibleAbbreviation": "Jer",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "52",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jeremiah",
+      "bookNameEnglishGuide": "Jeremiah",
       "typicalSection": "OT"
     },
     "LAM": {
+      "originalLanguageCode": "hbo",
+      "bookName": "אֵיכָה",
       "referenceNumber": 25,
+      "shortAbbreviation": "La",
       "SBLAbbreviation": "Lam",
       "OSISAbbreviation": "Lam",
       "SwordAbbreviation": "Lam",
@@ -5186,16 +6966,21 @@
       "USXNumberString": "025",
       "UnboundCodeString": "25O",
       "BibleditNumberString": "25",
+      "LogosNumberString": "25",
+      "LogosAbbreviation": "La",
       "NETBibleAbbreviation": "Lam",
       "DrupalBibleAbbreviation": "Lam",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Lamentations / Lamentations of Jeremiah",
+      "bookNameEnglishGuide": "Lamentations / Lamentations of Jeremiah",
       "typicalSection": "OT"
     },
     "EZE": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יְחֶזְקֵאל",
       "referenceNumber": 26,
+      "shortAbbreviation": "Eze",
       "SBLAbbreviation": "Ezek",
       "OSISAbbreviation": "Ezek",
       "SwordAbbreviation": "Ezek",
@@ -5205,16 +6990,21 @@
       "USXNumberString": "026",
       "UnboundCodeString": "26O",
       "BibleditNumberString": "26",
+      "LogosNumberString": "26",
+      "LogosAbbreviation": "Eze",
       "NETBibleAbbreviation": "Eze",
       "DrupalBibleAbbreviation": "Eze",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "48",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ezekiel",
+      "bookNameEnglishGuide": "Ezekiel",
       "typicalSection": "OT"
     },
     "DAN": {
+      "originalLanguageCode": "hbo",
+      "bookName": "דָּנִיֵּאל",
       "referenceNumber": 27,
+      "shortAbbreviation": "Da",
       "SBLAbbreviation": "Dan",
       "OSISAbbreviation": "Dan",
       "SwordAbbreviation": "Dan",
@@ -5224,6 +7014,8 @@
       "USXNumberString": "027",
       "UnboundCodeString": "27O",
       "BibleditNumberString": "27",
+      "LogosNumberString": "27",
+      "LogosAbbreviation": "Da",
       "NETBibleAbbreviation": "Dan",
       "DrupalBibleAbbreviation": "Dan",
       "ByzantineAbbreviation": null,
@@ -5234,11 +7026,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Daniel",
+      "bookNameEnglishGuide": "Daniel",
       "typicalSection": "OT"
     },
     "HOS": {
+      "originalLanguageCode": "hbo",
+      "bookName": "הוֹשֵׁעַ",
       "referenceNumber": 28,
+      "shortAbbreviation": "Ho",
       "SBLAbbreviation": "Hos",
       "OSISAbbreviation": "Hos",
       "SwordAbbreviation": "Hos",
@@ -5248,16 +7043,21 @@
       "USXNumberString": "028",
       "UnboundCodeString": "28O",
       "BibleditNumberString": "28",
+      "LogosNumberString": "28",
+      "LogosAbbreviation": "Ho",
       "NETBibleAbbreviation": "Hos",
       "DrupalBibleAbbreviation": "Hos",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hosea",
+      "bookNameEnglishGuide": "Hosea",
       "typicalSection": "OT"
     },
     "JOL": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יוֹאֵל",
       "referenceNumber": 29,
+      "shortAbbreviation": "Jol",
       "SBLAbbreviation": "Joel",
       "OSISAbbreviation": "Joel",
       "SwordAbbreviation": "Joel",
@@ -5267,16 +7067,21 @@
       "USXNumberString": "029",
       "UnboundCodeString": "29O",
       "BibleditNumberString": "29",
+      "LogosNumberString": "29",
+      "LogosAbbreviation": "Joe",
       "NETBibleAbbreviation": "Joe",
       "DrupalBibleAbbreviation": "Joe",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3,4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Joel",
+      "bookNameEnglishGuide": "Joel",
       "typicalSection": "OT"
     },
     "AMO": {
+      "originalLanguageCode": "hbo",
+      "bookName": "עָמוֹס",
       "referenceNumber": 30,
+      "shortAbbreviation": "Am",
       "SBLAbbreviation": "Amos",
       "OSISAbbreviation": "Amos",
       "SwordAbbreviation": "Amos",
@@ -5286,16 +7091,21 @@
       "USXNumberString": "030",
       "UnboundCodeString": "30O",
       "BibleditNumberString": "30",
+      "LogosNumberString": "30",
+      "LogosAbbreviation": "Am",
       "NETBibleAbbreviation": "Amo",
       "DrupalBibleAbbreviation": "Amo",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "9",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Amos",
+      "bookNameEnglishGuide": "Amos",
       "typicalSection": "OT"
     },
     "OBA": {
+      "originalLanguageCode": "hbo",
+      "bookName": "עֹבַדְיָה",
       "referenceNumber": 31,
+      "shortAbbreviation": "Ob",
       "SBLAbbreviation": "Obad",
       "OSISAbbreviation": "Obad",
       "SwordAbbreviation": "Obad",
@@ -5305,16 +7115,21 @@
       "USXNumberString": "031",
       "UnboundCodeString": "31O",
       "BibleditNumberString": "31",
+      "LogosNumberString": "31",
+      "LogosAbbreviation": "Ob",
       "NETBibleAbbreviation": "Oba",
       "DrupalBibleAbbreviation": "Oba",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Obadiah",
+      "bookNameEnglishGuide": "Obadiah",
       "typicalSection": "OT"
     },
     "JNA": {
+      "originalLanguageCode": "hbo",
+      "bookName": "יוֹנָה",
       "referenceNumber": 32,
+      "shortAbbreviation": "Jon",
       "SBLAbbreviation": "Jonah",
       "OSISAbbreviation": "Jonah",
       "SwordAbbreviation": "Jonah",
@@ -5324,17 +7139,22 @@
       "USXNumberString": "032",
       "UnboundCodeString": "32O",
       "BibleditNumberString": "32",
+      "LogosNumberString": "32",
+      "LogosAbbreviation": "Jon",
       "NETBibleAbbreviation": "Jon",
       "DrupalBibleAbbreviation": "Jon",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jonah",
+      "bookNameEnglishGuide": "Jonah",
       "typicalSection": "OT"
     },
     "MIC": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מִיכָה",
       "referenceNumber": 33,
-      "SBLAbbreviation": "Nic",
+      "shortAbbreviation": "Mi",
+      "SBLAbbreviation": "Mic",
       "OSISAbbreviation": "Mic",
       "SwordAbbreviation": "Mic",
       "CCELNumberString": "33",
@@ -5343,16 +7163,21 @@
       "USXNumberString": "033",
       "UnboundCodeString": "33O",
       "BibleditNumberString": "33",
+      "LogosNumberString": "33",
+      "LogosAbbreviation": "Mic",
       "NETBibleAbbreviation": "Mic",
       "DrupalBibleAbbreviation": "Mic",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "7",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Micah",
+      "bookNameEnglishGuide": "Micah",
       "typicalSection": "OT"
     },
     "NAH": {
+      "originalLanguageCode": "hbo",
+      "bookName": "נַחוּם",
       "referenceNumber": 34,
+      "shortAbbreviation": "Na",
       "SBLAbbreviation": "Nah",
       "OSISAbbreviation": "Nah",
       "SwordAbbreviation": "Nah",
@@ -5362,16 +7187,21 @@
       "USXNumberString": "034",
       "UnboundCodeString": "34O",
       "BibleditNumberString": "34",
+      "LogosNumberString": "34",
+      "LogosAbbreviation": "Na",
       "NETBibleAbbreviation": "Nah",
       "DrupalBibleAbbreviation": "Nah",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Nahum",
+      "bookNameEnglishGuide": "Nahum",
       "typicalSection": "OT"
     },
     "HAB": {
+      "originalLanguageCode": "hbo",
+      "bookName": "חֲבַקּוּק",
       "referenceNumber": 35,
+      "shortAbbreviation": "Hab",
       "SBLAbbreviation": "Hab",
       "OSISAbbreviation": "Hab",
       "SwordAbbreviation": "Hab",
@@ -5381,16 +7211,21 @@
       "USXNumberString": "035",
       "UnboundCodeString": "35O",
       "BibleditNumberString": "35",
+      "LogosNumberString": "35",
+      "LogosAbbreviation": "Hab",
       "NETBibleAbbreviation": "Hab",
       "DrupalBibleAbbreviation": "Hab",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Habakkuk",
+      "bookNameEnglishGuide": "Habakkuk",
       "typicalSection": "OT"
     },
     "ZEP": {
+      "originalLanguageCode": "hbo",
+      "bookName": "צְפַנְיָה",
       "referenceNumber": 36,
+      "shortAbbreviation": "Zep",
       "SBLAbbreviation": "Zeph",
       "OSISAbbreviation": "Zeph",
       "SwordAbbreviation": "Zeph",
@@ -5400,16 +7235,21 @@
       "USXNumberString": "036",
       "UnboundCodeString": "36O",
       "BibleditNumberString": "36",
+      "LogosNumberString": "36",
+      "LogosAbbreviation": "Zep",
       "NETBibleAbbreviation": "Zep",
       "DrupalBibleAbbreviation": "Zep",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Zephaniah",
+      "bookNameEnglishGuide": "Zephaniah",
       "typicalSection": "OT"
     },
     "HAG": {
+      "originalLanguageCode": "hbo",
+      "bookName": "חַגַּי",
       "referenceNumber": 37,
+      "shortAbbreviation": "Hag",
       "SBLAbbreviation": "Hag",
       "OSISAbbreviation": "Hag",
       "SwordAbbreviation": "Hag",
@@ -5419,16 +7259,21 @@
       "USXNumberString": "037",
       "UnboundCodeString": "37O",
       "BibleditNumberString": "37",
+      "LogosNumberString": "37",
+      "LogosAbbreviation": "Hag",
       "NETBibleAbbreviation": "Hag",
       "DrupalBibleAbbreviation": "Hag",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Haggai",
+      "bookNameEnglishGuide": "Haggai",
       "typicalSection": "OT"
     },
     "ZEC": {
+      "originalLanguageCode": "hbo",
+      "bookName": "זְכַרְיָה",
       "referenceNumber": 38,
+      "shortAbbreviation": "Zec",
       "SBLAbbreviation": "Zech",
       "OSISAbbreviation": "Zech",
       "SwordAbbreviation": "Zech",
@@ -5438,16 +7283,21 @@
       "USXNumberString": "038",
       "UnboundCodeString": "38O",
       "BibleditNumberString": "38",
+      "LogosNumberString": "38",
+      "LogosAbbreviation": "Zec",
       "NETBibleAbbreviation": "Zec",
       "DrupalBibleAbbreviation": "Zec",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Zechariah",
+      "bookNameEnglishGuide": "Zechariah",
       "typicalSection": "OT"
     },
     "MAL": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מַלְאָכִי",
       "referenceNumber": 39,
+      "shortAbbreviation": "Mal",
       "SBLAbbreviation": "Mal",
       "OSISAbbreviation": "Mal",
       "SwordAbbreviation": "Mal",
@@ -5457,16 +7307,21 @@
       "USXNumberString": "039",
       "UnboundCodeString": "39O",
       "BibleditNumberString": "39",
+      "LogosNumberString": "39",
+      "LogosAbbreviation": "Mal",
       "NETBibleAbbreviation": "Mal",
       "DrupalBibleAbbreviation": "Mal",
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "4,3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Malachi",
+      "bookNameEnglishGuide": "Malachi",
       "typicalSection": "OT"
     },
     "MAT": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Μαθθαῖον",
       "referenceNumber": 40,
+      "shortAbbreviation": "Mt",
       "SBLAbbreviation": "Matt",
       "OSISAbbreviation": "Matt",
       "SwordAbbreviation": "Matt",
@@ -5476,16 +7331,21 @@
       "USXNumberString": "040",
       "UnboundCodeString": "40N",
       "BibleditNumberString": "40",
+      "LogosNumberString": "61",
+      "LogosAbbreviation": "Mt",
       "NETBibleAbbreviation": "Mat",
       "DrupalBibleAbbreviation": "Mat",
       "ByzantineAbbreviation": "MT",
       "numExpectedChapters": "28",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Matthew",
+      "bookNameEnglishGuide": "Matthew",
       "typicalSection": "NT"
     },
     "MRK": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Μᾶρκον",
       "referenceNumber": 41,
+      "shortAbbreviation": "Mk",
       "SBLAbbreviation": "Mark",
       "OSISAbbreviation": "Mark",
       "SwordAbbreviation": "Mark",
@@ -5495,16 +7355,21 @@
       "USXNumberString": "041",
       "UnboundCodeString": "41N",
       "BibleditNumberString": "41",
+      "LogosNumberString": "62",
+      "LogosAbbreviation": "Mk",
       "NETBibleAbbreviation": "Mar",
       "DrupalBibleAbbreviation": "Mak",
       "ByzantineAbbreviation": "MR",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Mark",
+      "bookNameEnglishGuide": "Mark",
       "typicalSection": "NT"
     },
     "LUK": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Λουκᾶν",
       "referenceNumber": 42,
+      "shortAbbreviation": "Lk",
       "SBLAbbreviation": "Luke",
       "OSISAbbreviation": "Luke",
       "SwordAbbreviation": "Luke",
@@ -5514,6 +7379,8 @@
       "USXNumberString": "042",
       "UnboundCodeString": "42N",
       "BibleditNumberString": "42",
+      "LogosNumberString": "63",
+      "LogosAbbreviation": "Lk",
       "NETBibleAbbreviation": "Luk",
       "DrupalBibleAbbreviation": "Luk",
       "ByzantineAbbreviation": "LU",
@@ -5521,11 +7388,14 @@
       "possibleAlternativeBooks": [
         "LKA"
       ],
-      "nameEnglish": "Luke",
+      "bookNameEnglishGuide": "Luke",
       "typicalSection": "NT"
     },
     "JHN": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Κατὰ Ἰωάννην",
       "referenceNumber": 43,
+      "shortAbbreviation": "Jn",
       "SBLAbbreviation": "John",
       "OSISAbbreviation": "John",
       "SwordAbbreviation": "John",
@@ -5535,16 +7405,21 @@
       "USXNumberString": "043",
       "UnboundCodeString": "43N",
       "BibleditNumberString": "43",
+      "LogosNumberString": "64",
+      "LogosAbbreviation": "Jn",
       "NETBibleAbbreviation": "Joh",
       "DrupalBibleAbbreviation": "Jhn",
       "ByzantineAbbreviation": "JOH",
       "numExpectedChapters": "21",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "John",
+      "bookNameEnglishGuide": "John",
       "typicalSection": "NT"
     },
     "ACT": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πράξεις Ἀποστόλων",
       "referenceNumber": 44,
+      "shortAbbreviation": "Ac",
       "SBLAbbreviation": "Acts",
       "OSISAbbreviation": "Acts",
       "SwordAbbreviation": "Acts",
@@ -5554,6 +7429,8 @@
       "USXNumberString": "044",
       "UnboundCodeString": "44N",
       "BibleditNumberString": "44",
+      "LogosNumberString": "65",
+      "LogosAbbreviation": "Ac",
       "NETBibleAbbreviation": "Act",
       "DrupalBibleAbbreviation": "Act",
       "ByzantineAbbreviation": "AC",
@@ -5561,11 +7438,14 @@
       "possibleAlternativeBooks": [
         "LKA"
       ],
-      "nameEnglish": "Acts / Acts of the Apostles",
+      "bookNameEnglishGuide": "Acts / Acts of the Apostles",
       "typicalSection": "NT"
     },
     "ROM": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ῥωμαίους",
       "referenceNumber": 45,
+      "shortAbbreviation": "Ro",
       "SBLAbbreviation": "Rom",
       "OSISAbbreviation": "Rom",
       "SwordAbbreviation": "Rom",
@@ -5575,16 +7455,21 @@
       "USXNumberString": "045",
       "UnboundCodeString": "45N",
       "BibleditNumberString": "45",
+      "LogosNumberString": "66",
+      "LogosAbbreviation": "Ro",
       "NETBibleAbbreviation": "Rom",
       "DrupalBibleAbbreviation": "Rom",
       "ByzantineAbbreviation": "RO",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Romans",
+      "bookNameEnglishGuide": "Romans",
       "typicalSection": "NT"
     },
     "CO1": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κορινθίους α",
       "referenceNumber": 46,
+      "shortAbbreviation": "1Co",
       "SBLAbbreviation": "1 Cor",
       "OSISAbbreviation": "1Cor",
       "SwordAbbreviation": "1Cor",
@@ -5594,16 +7479,21 @@
       "USXNumberString": "046",
       "UnboundCodeString": "46N",
       "BibleditNumberString": "46",
+      "LogosNumberString": "67",
+      "LogosAbbreviation": "1Co",
       "NETBibleAbbreviation": "1Co",
       "DrupalBibleAbbreviation": "1Co",
       "ByzantineAbbreviation": "1CO",
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Corinthians",
+      "bookNameEnglishGuide": "1 Corinthians",
       "typicalSection": "NT"
     },
     "CO2": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κορινθίους β",
       "referenceNumber": 47,
+      "shortAbbreviation": "2Co",
       "SBLAbbreviation": "2 Cor",
       "OSISAbbreviation": "2Cor",
       "SwordAbbreviation": "2Cor",
@@ -5613,16 +7503,21 @@
       "USXNumberString": "047",
       "UnboundCodeString": "47N",
       "BibleditNumberString": "47",
+      "LogosNumberString": "68",
+      "LogosAbbreviation": "2Co",
       "NETBibleAbbreviation": "2Co",
       "DrupalBibleAbbreviation": "2Co",
       "ByzantineAbbreviation": "2CO",
       "numExpectedChapters": "13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Corinthians",
+      "bookNameEnglishGuide": "2 Corinthians",
       "typicalSection": "NT"
     },
     "GAL": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Γαλάτας",
       "referenceNumber": 48,
+      "shortAbbreviation": "Ga",
       "SBLAbbreviation": "Gal",
       "OSISAbbreviation": "Gal",
       "SwordAbbreviation": "Gal",
@@ -5632,16 +7527,21 @@
       "USXNumberString": "048",
       "UnboundCodeString": "48N",
       "BibleditNumberString": "48",
+      "LogosNumberString": "69",
+      "LogosAbbreviation": "Ga",
       "NETBibleAbbreviation": "Gal",
       "DrupalBibleAbbreviation": "Gal",
       "ByzantineAbbreviation": "GA",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Galatians",
+      "bookNameEnglishGuide": "Galatians",
       "typicalSection": "NT"
     },
     "EPH": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ἐφεσίους",
       "referenceNumber": 49,
+      "shortAbbreviation": "Eph",
       "SBLAbbreviation": "Eph",
       "OSISAbbreviation": "Eph",
       "SwordAbbreviation": "Eph",
@@ -5651,16 +7551,21 @@
       "USXNumberString": "049",
       "UnboundCodeString": "49N",
       "BibleditNumberString": "49",
+      "LogosNumberString": "70",
+      "LogosAbbreviation": "Eph",
       "NETBibleAbbreviation": "Eph",
       "DrupalBibleAbbreviation": "Eph",
       "ByzantineAbbreviation": "EPH",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ephesians",
+      "bookNameEnglishGuide": "Ephesians",
       "typicalSection": "NT"
     },
     "PHP": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Φιλιππησίους",
       "referenceNumber": 50,
+      "shortAbbreviation": "Php",
       "SBLAbbreviation": "Phil",
       "OSISAbbreviation": "Phil",
       "SwordAbbreviation": "Phil",
@@ -5670,16 +7575,21 @@
       "USXNumberString": "050",
       "UnboundCodeString": "50N",
       "BibleditNumberString": "50",
+      "LogosNumberString": "71",
+      "LogosAbbreviation": "Php",
       "NETBibleAbbreviation": "Phi",
       "DrupalBibleAbbreviation": "Phl",
       "ByzantineAbbreviation": "PHP",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philippians",
+      "bookNameEnglishGuide": "Philippians",
       "typicalSection": "NT"
     },
     "COL": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Κολοσσαεῖς",
       "referenceNumber": 51,
+      "shortAbbreviation": "Col",
       "SBLAbbreviation": "Col",
       "OSISAbbreviation": "Col",
       "SwordAbbreviation": "Col",
@@ -5689,16 +7599,21 @@
       "USXNumberString": "051",
       "UnboundCodeString": "51N",
       "BibleditNumberString": "51",
+      "LogosNumberString": "72",
+      "LogosAbbreviation": "Col",
       "NETBibleAbbreviation": "Col",
       "DrupalBibleAbbreviation": "Col",
       "ByzantineAbbreviation": "COL",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Colossians",
+      "bookNameEnglishGuide": "Colossians",
       "typicalSection": "NT"
     },
     "TH1": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Θεσσαλονικεῖς α",
       "referenceNumber": 52,
+      "shortAbbreviation": "1Th",
       "SBLAbbreviation": "1 Thess",
       "OSISAbbreviation": "1Thess",
       "SwordAbbreviation": "1Thess",
@@ -5708,16 +7623,21 @@
       "USXNumberString": "052",
       "UnboundCodeString": "52N",
       "BibleditNumberString": "52",
+      "LogosNumberString": "73",
+      "LogosAbbreviation": "1Th",
       "NETBibleAbbreviation": "1Th",
       "DrupalBibleAbbreviation": "1Ts",
       "ByzantineAbbreviation": "1TH",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Thessalonians",
+      "bookNameEnglishGuide": "1 Thessalonians",
       "typicalSection": "NT"
     },
     "TH2": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Θεσσαλονικεῖς β",
       "referenceNumber": 53,
+      "shortAbbreviation": "2Th",
       "SBLAbbreviation": "2 Thess",
       "OSISAbbreviation": "2Thess",
       "SwordAbbreviation": "2Thess",
@@ -5727,16 +7647,21 @@
       "USXNumberString": "053",
       "UnboundCodeString": "53N",
       "BibleditNumberString": "53",
+      "LogosNumberString": "74",
+      "LogosAbbreviation": "2Th",
       "NETBibleAbbreviation": "2Th",
       "DrupalBibleAbbreviation": "2Ts",
       "ByzantineAbbreviation": "2TH",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Thessalonians",
+      "bookNameEnglishGuide": "2 Thessalonians",
       "typicalSection": "NT"
     },
     "TI1": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τιμόθεον α",
       "referenceNumber": 54,
+      "shortAbbreviation": "1Ti",
       "SBLAbbreviation": "1 Tim",
       "OSISAbbreviation": "1Tim",
       "SwordAbbreviation": "1Tim",
@@ -5746,16 +7671,21 @@
       "USXNumberString": "054",
       "UnboundCodeString": "54N",
       "BibleditNumberString": "54",
+      "LogosNumberString": "75",
+      "LogosAbbreviation": "1Ti",
       "NETBibleAbbreviation": "1Ti",
       "DrupalBibleAbbreviation": "1Tm",
       "ByzantineAbbreviation": "1TI",
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Timothy",
+      "bookNameEnglishGuide": "1 Timothy",
       "typicalSection": "NT"
     },
     "TI2": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τιμόθεον β",
       "referenceNumber": 55,
+      "shortAbbreviation": "2Ti",
       "SBLAbbreviation": "2 Tim",
       "OSISAbbreviation": "2Tim",
       "SwordAbbreviation": "2Tim",
@@ -5765,16 +7695,21 @@
       "USXNumberString": "055",
       "UnboundCodeString": "55N",
       "BibleditNumberString": "55",
+      "LogosNumberString": "76",
+      "LogosAbbreviation": "2Ti",
       "NETBibleAbbreviation": "2Ti",
       "DrupalBibleAbbreviation": "2Tm",
       "ByzantineAbbreviation": "2TI",
       "numExpectedChapters": "4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Timothy",
+      "bookNameEnglishGuide": "2 Timothy",
       "typicalSection": "NT"
     },
     "TIT": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Τίτον",
       "referenceNumber": 56,
+      "shortAbbreviation": "Tit",
       "SBLAbbreviation": "Titus",
       "OSISAbbreviation": "Titus",
       "SwordAbbreviation": "Titus",
@@ -5784,16 +7719,21 @@
       "USXNumberString": "056",
       "UnboundCodeString": "56N",
       "BibleditNumberString": "56",
+      "LogosNumberString": "77",
+      "LogosAbbreviation": "Tt",
       "NETBibleAbbreviation": "Tit",
       "DrupalBibleAbbreviation": "Tit",
       "ByzantineAbbreviation": "TIT",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Titus",
+      "bookNameEnglishGuide": "Titus",
       "typicalSection": "NT"
     },
     "PHM": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Φιλήμονα",
       "referenceNumber": 57,
+      "shortAbbreviation": "Phm",
       "SBLAbbreviation": "Phlm",
       "OSISAbbreviation": "Phlm",
       "SwordAbbreviation": "Phlm",
@@ -5803,16 +7743,21 @@
       "USXNumberString": "057",
       "UnboundCodeString": "57N",
       "BibleditNumberString": "57",
+      "LogosNumberString": "78",
+      "LogosAbbreviation": "Phm",
       "NETBibleAbbreviation": "Phm",
       "DrupalBibleAbbreviation": "Phm",
       "ByzantineAbbreviation": "PHM",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philemon",
+      "bookNameEnglishGuide": "Philemon",
       "typicalSection": "NT"
     },
     "HEB": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πρὸς Ἑβραίους",
       "referenceNumber": 58,
+      "shortAbbreviation": "Heb",
       "SBLAbbreviation": "Heb",
       "OSISAbbreviation": "Heb",
       "SwordAbbreviation": "Heb",
@@ -5822,16 +7767,21 @@
       "USXNumberString": "058",
       "UnboundCodeString": "58N",
       "BibleditNumberString": "58",
+      "LogosNumberString": "79",
+      "LogosAbbreviation": "Heb",
       "NETBibleAbbreviation": "Heb",
       "DrupalBibleAbbreviation": "Heb",
       "ByzantineAbbreviation": "HEB",
       "numExpectedChapters": "13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hebrews",
+      "bookNameEnglishGuide": "Hebrews",
       "typicalSection": "NT"
     },
     "JAM": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰακώβου",
       "referenceNumber": 59,
+      "shortAbbreviation": "Jas",
       "SBLAbbreviation": "Jas",
       "OSISAbbreviation": "Jas",
       "SwordAbbreviation": "Jas",
@@ -5841,16 +7791,21 @@
       "USXNumberString": "059",
       "UnboundCodeString": "59N",
       "BibleditNumberString": "59",
+      "LogosNumberString": "80",
+      "LogosAbbreviation": "Jas",
       "NETBibleAbbreviation": "Jam",
       "DrupalBibleAbbreviation": "Jam",
       "ByzantineAbbreviation": "JAS",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "James / Jacob",
+      "bookNameEnglishGuide": "James / Jacob",
       "typicalSection": "NT"
     },
     "PE1": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πέτρου α",
       "referenceNumber": 60,
+      "shortAbbreviation": "1Pe",
       "SBLAbbreviation": "1 Pet",
       "OSISAbbreviation": "1Pet",
       "SwordAbbreviation": "1Pet",
@@ -5860,16 +7815,21 @@
       "USXNumberString": "060",
       "UnboundCodeString": "60N",
       "BibleditNumberString": "60",
+      "LogosNumberString": "81",
+      "LogosAbbreviation": "1Pe",
       "NETBibleAbbreviation": "1Pe",
       "DrupalBibleAbbreviation": "1Pe",
       "ByzantineAbbreviation": "1PE",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Peter",
+      "bookNameEnglishGuide": "1 Peter",
       "typicalSection": "NT"
     },
     "PE2": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Πέτρου β",
       "referenceNumber": 61,
+      "shortAbbreviation": "2Pe",
       "SBLAbbreviation": "2 Pet",
       "OSISAbbreviation": "2Pet",
       "SwordAbbreviation": "2Pet",
@@ -5879,16 +7839,21 @@
       "USXNumberString": "061",
       "UnboundCodeString": "61N",
       "BibleditNumberString": "61",
+      "LogosNumberString": "82",
+      "LogosAbbreviation": "2Pe",
       "NETBibleAbbreviation": "2Pe",
       "DrupalBibleAbbreviation": "2Pe",
       "ByzantineAbbreviation": "2PE",
       "numExpectedChapters": "3",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Peter",
+      "bookNameEnglishGuide": "2 Peter",
       "typicalSection": "NT"
     },
     "JN1": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου α",
       "referenceNumber": 62,
+      "shortAbbreviation": "1Jn",
       "SBLAbbreviation": "1 John",
       "OSISAbbreviation": "1John",
       "SwordAbbreviation": "1John",
@@ -5898,16 +7863,21 @@
       "USXNumberString": "062",
       "UnboundCodeString": "62N",
       "BibleditNumberString": "62",
+      "LogosNumberString": "83",
+      "LogosAbbreviation": "1Jn",
       "NETBibleAbbreviation": "1Jo",
       "DrupalBibleAbbreviation": "1Jn",
       "ByzantineAbbreviation": "1JO",
       "numExpectedChapters": "5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 John",
+      "bookNameEnglishGuide": "1 John",
       "typicalSection": "NT"
     },
     "JN2": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου β",
       "referenceNumber": 63,
+      "shortAbbreviation": "2Jn",
       "SBLAbbreviation": "2 John",
       "OSISAbbreviation": "2John",
       "SwordAbbreviation": "2John",
@@ -5917,16 +7887,21 @@
       "USXNumberString": "063",
       "UnboundCodeString": "63N",
       "BibleditNumberString": "63",
+      "LogosNumberString": "84",
+      "LogosAbbreviation": "2Jn",
       "NETBibleAbbreviation": "2Jo",
       "DrupalBibleAbbreviation": "2Jn",
       "ByzantineAbbreviation": "2JO",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 John",
+      "bookNameEnglishGuide": "2 John",
       "typicalSection": "NT"
     },
     "JN3": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰωάννου γ",
       "referenceNumber": 64,
+      "shortAbbreviation": "3Jn",
       "SBLAbbreviation": "3 John",
       "OSISAbbreviation": "3John",
       "SwordAbbreviation": "3John",
@@ -5936,16 +7911,21 @@
       "USXNumberString": "064",
       "UnboundCodeString": "64N",
       "BibleditNumberString": "64",
+      "LogosNumberString": "85",
+      "LogosAbbreviation": "3Jn",
       "NETBibleAbbreviation": "3Jo",
       "DrupalBibleAbbreviation": "3Jn",
       "ByzantineAbbreviation": "3JO",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 John",
+      "bookNameEnglishGuide": "3 John",
       "typicalSection": "NT"
     },
     "JDE": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἰούδας",
       "referenceNumber": 65,
+      "shortAbbreviation": "Jud",
       "SBLAbbreviation": "Jude",
       "OSISAbbreviation": "Jude",
       "SwordAbbreviation": "Jude",
@@ -5955,16 +7935,21 @@
       "USXNumberString": "065",
       "UnboundCodeString": "65N",
       "BibleditNumberString": "65",
+      "LogosNumberString": "86",
+      "LogosAbbreviation": "Jud",
       "NETBibleAbbreviation": "Jud",
       "DrupalBibleAbbreviation": "Jud",
       "ByzantineAbbreviation": "JUDE",
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jude",
+      "bookNameEnglishGuide": "Jude / Judas",
       "typicalSection": "NT"
     },
     "REV": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "Ἀποκάλυψις Ἰωάννου",
       "referenceNumber": 66,
+      "shortAbbreviation": "Re",
       "SBLAbbreviation": "Rev",
       "OSISAbbreviation": "Rev",
       "SwordAbbreviation": "Rev",
@@ -5974,16 +7959,21 @@
       "USXNumberString": "066",
       "UnboundCodeString": "66N",
       "BibleditNumberString": "66",
+      "LogosNumberString": "87",
+      "LogosAbbreviation": "Re",
       "NETBibleAbbreviation": "Rev",
       "DrupalBibleAbbreviation": "Rev",
       "ByzantineAbbreviation": "RE",
       "numExpectedChapters": "22",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Revelation / Revelation of John / Apocalypse of St. John",
+      "bookNameEnglishGuide": "Revelation / Revelation of John / Apocalypse of St. John",
       "typicalSection": "NT"
     },
     "ESG": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 70,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "EsthGr",
       "SwordAbbreviation": "EsthGr",
@@ -5993,6 +7983,8 @@
       "USXNumberString": "069",
       "UnboundCodeString": "69A",
       "BibleditNumberString": "72",
+      "LogosNumberString": "42",
+      "LogosAbbreviation": "GkEs",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6002,11 +7994,14 @@
         "ESA",
         "ESC"
       ],
-      "nameEnglish": "Greek Esther / Esther (Greek)",
+      "bookNameEnglishGuide": "Greek Esther / Esther (Greek)",
       "typicalSection": "OT"
     },
     "ESA": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 71,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "AddEsth",
       "SwordAbbreviation": "AddEsth",
@@ -6016,6 +8011,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6025,11 +8022,14 @@
         "ESG",
         "ESC"
       ],
-      "nameEnglish": "Greek additions to Esther / Esther (additions)",
+      "bookNameEnglishGuide": "Greek additions to Esther / Esther (additions)",
       "typicalSection": "OT"
     },
     "ESC": {
+      "originalLanguageCode": "hbo, el-x-koine",
+      "bookName": "אֶסְתֵר",
       "referenceNumber": 72,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Esth",
       "OSISAbbreviation": "AddEsth",
       "SwordAbbreviation": "AddEsth",
@@ -6039,6 +8039,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6048,11 +8050,14 @@
         "ESG",
         "ESA"
       ],
-      "nameEnglish": "Combined Hebrew/Greek Esther / Esther (combined)",
+      "bookNameEnglishGuide": "Combined Hebrew/Greek Esther / Esther (combined)",
       "typicalSection": "OT"
     },
     "DNG": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 73,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "DanGr",
@@ -6062,6 +8067,8 @@
       "USXNumberString": "112",
       "UnboundCodeString": null,
       "BibleditNumberString": "88",
+      "LogosNumberString": "98",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6072,11 +8079,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Greek Daniel / Daniel (Greek)",
+      "bookNameEnglishGuide": "Greek Daniel / Daniel (Greek)",
       "typicalSection": "OT"
     },
     "DNA": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 74,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "AddDan",
@@ -6086,6 +8096,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6096,11 +8108,14 @@
         "DNC",
         "DNT"
       ],
-      "nameEnglish": "Greek additions to Daniel / Daniel (additions)",
+      "bookNameEnglishGuide": "Greek additions to Daniel / Daniel (additions)",
       "typicalSection": "OT"
     },
     "DNC": {
+      "originalLanguageCode": "hbo, el-x-koine",
+      "bookName": "דָּנִיֵּאל",
       "referenceNumber": 75,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Add Dan",
       "OSISAbbreviation": "AddDan",
       "SwordAbbreviation": "AddDan",
@@ -6110,6 +8125,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6120,11 +8137,14 @@
         "DNA",
         "DNT"
       ],
-      "nameEnglish": "Combined Hebrew/Greek Daniel / Daniel (combined)",
+      "bookNameEnglishGuide": "Combined Hebrew/Greek Daniel / Daniel (combined)",
       "typicalSection": "OT"
     },
     "BEL": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 80,
+      "shortAbbreviation": "Bel",
       "SBLAbbreviation": "Bel",
       "OSISAbbreviation": "Bel",
       "SwordAbbreviation": "Bel",
@@ -6134,6 +8154,8 @@
       "USXNumberString": "076",
       "UnboundCodeString": "76A",
       "BibleditNumberString": "79",
+      "LogosNumberString": "49",
+      "LogosAbbreviation": "Bel",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6141,11 +8163,14 @@
       "possibleAlternativeBooks": [
         "BLT"
       ],
-      "nameEnglish": "Bel and the dragon",
+      "bookNameEnglishGuide": "Bel and the dragon",
       "typicalSection": "DC"
     },
     "SUS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 81,
+      "shortAbbreviation": "Sus",
       "SBLAbbreviation": "Sus",
       "OSISAbbreviation": "Sus",
       "SwordAbbreviation": "Sus",
@@ -6155,6 +8180,8 @@
       "USXNumberString": "075",
       "UnboundCodeString": "75A",
       "BibleditNumberString": "78",
+      "LogosNumberString": "48",
+      "LogosAbbreviation": "Sus",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6162,11 +8189,14 @@
       "possibleAlternativeBooks": [
         "SST"
       ],
-      "nameEnglish": "Susanna",
+      "bookNameEnglishGuide": "Susanna",
       "typicalSection": "DC"
     },
     "JDT": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 82,
+      "shortAbbreviation": "Jdt",
       "SBLAbbreviation": "Jdt",
       "OSISAbbreviation": "Jdt",
       "SwordAbbreviation": "Jdt",
@@ -6176,16 +8206,21 @@
       "USXNumberString": "068",
       "UnboundCodeString": "68A",
       "BibleditNumberString": "71",
+      "LogosNumberString": "41",
+      "LogosAbbreviation": "Jdt",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Judith",
+      "bookNameEnglishGuide": "Judith",
       "typicalSection": "DC"
     },
     "MAN": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 83,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Pr Man",
       "OSISAbbreviation": "PrMan",
       "SwordAbbreviation": "PrMan",
@@ -6195,16 +8230,21 @@
       "USXNumberString": "083",
       "UnboundCodeString": "83A",
       "BibleditNumberString": "83",
+      "LogosNumberString": "53",
+      "LogosAbbreviation": "PrMan",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Manasses / Prayer of Manasseh",
+      "bookNameEnglishGuide": "Prayer of Manasses / Prayer of Manasseh",
       "typicalSection": "DC"
     },
     "SIR": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 84,
+      "shortAbbreviation": "Sir",
       "SBLAbbreviation": "Sir",
       "OSISAbbreviation": "Sir",
       "SwordAbbreviation": "Sir",
@@ -6214,16 +8254,21 @@
       "USXNumberString": "071",
       "UnboundCodeString": "71A",
       "BibleditNumberString": "74",
+      "LogosNumberString": "44",
+      "LogosAbbreviation": "Sir",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "51,52",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Sirach / Ecclesiasticus / Wisdom of Ben Sira / Wisdom of Jesus son of Sirach",
+      "bookNameEnglishGuide": "Sirach / Ecclesiasticus / Wisdom of Ben Sira / Wisdom of Jesus son of Sirach",
       "typicalSection": "DC"
     },
     "SIP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 85,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "SirP",
       "SwordAbbreviation": "SirP",
@@ -6233,16 +8278,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Sirach Prologue",
+      "bookNameEnglishGuide": "Sirach Prologue",
       "typicalSection": "DC"
     },
     "TOB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 86,
+      "shortAbbreviation": "Tob",
       "SBLAbbreviation": "Tob",
       "OSISAbbreviation": "Tob",
       "SwordAbbreviation": "Tob",
@@ -6252,6 +8302,8 @@
       "USXNumberString": "067",
       "UnboundCodeString": "67A",
       "BibleditNumberString": "70",
+      "LogosNumberString": "40",
+      "LogosAbbreviation": "Tob",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6259,11 +8311,14 @@
       "possibleAlternativeBooks": [
         "TBS"
       ],
-      "nameEnglish": "Tobit / Tobias",
+      "bookNameEnglishGuide": "Tobit / Tobias",
       "typicalSection": "DC"
     },
     "WIS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 87,
+      "shortAbbreviation": "Wis",
       "SBLAbbreviation": "Wis",
       "OSISAbbreviation": "Wis",
       "SwordAbbreviation": "Wis",
@@ -6273,16 +8328,21 @@
       "USXNumberString": "070",
       "UnboundCodeString": "70A",
       "BibleditNumberString": "73",
+      "LogosNumberString": "43",
+      "LogosAbbreviation": "Wis",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "19",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Wisdom / Wisdom of Solomon",
+      "bookNameEnglishGuide": "Wisdom / Wisdom of Solomon",
       "typicalSection": "DC"
     },
     "PAZ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 88,
+      "shortAbbreviation": "Az",
       "SBLAbbreviation": "Pr Azar",
       "OSISAbbreviation": "PrAzar",
       "SwordAbbreviation": "PrAzar",
@@ -6292,16 +8352,21 @@
       "USXNumberString": "074",
       "UnboundCodeString": "74A",
       "BibleditNumberString": "77",
+      "LogosNumberString": "47",
+      "LogosAbbreviation": "SongThr",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Azariah and the Song of the Three Young Men / Prayer of Azariah / Song of the Three Young Men / Song of the Three Children",
+      "bookNameEnglishGuide": "Prayer of Azariah and the Song of the Three Young Men / Prayer of Azariah / Song of the Three Young Men / Song of the Three Children",
       "typicalSection": "DC"
     },
     "GES": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 90,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "1 Esd",
       "OSISAbbreviation": "1Esd",
       "SwordAbbreviation": "1Esd",
@@ -6311,6 +8376,8 @@
       "USXNumberString": "081",
       "UnboundCodeString": "81A",
       "BibleditNumberString": "82",
+      "LogosNumberString": "52",
+      "LogosAbbreviation": "1Esd",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6318,11 +8385,14 @@
       "possibleAlternativeBooks": [
         "LES"
       ],
-      "nameEnglish": "Greek Esdras / Greek Ezra / 1 Esdras / 1 Ezra / 2 Ezra / 3 Ezra / 3 Esdras",
+      "bookNameEnglishGuide": "Greek Esdras / Greek Ezra / 1 Esdras / 1 Ezra / 2 Ezra / 3 Ezra / 3 Esdras",
       "typicalSection": "???"
     },
     "LES": {
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
       "referenceNumber": 91,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "2 Esd",
       "OSISAbbreviation": "2Esd",
       "SwordAbbreviation": "2Esd",
@@ -6332,6 +8402,8 @@
       "USXNumberString": "082",
       "UnboundCodeString": "82A",
       "BibleditNumberString": "86",
+      "LogosNumberString": "56",
+      "LogosAbbreviation": "2Esd",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6339,11 +8411,14 @@
       "possibleAlternativeBooks": [
         "GES"
       ],
-      "nameEnglish": "Latin Esdras / 2 Esdras / 3 Esdras / 4 Esdras / 4 Ezra",
+      "bookNameEnglishGuide": "Latin Esdras / 2 Esdras / 3 Esdras / 4 Esdras / 4 Ezra",
       "typicalSection": "???"
     },
     "EZA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 92,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "4 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "4Ezra",
@@ -6353,16 +8428,21 @@
       "USXNumberString": "104",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "100",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "12,13",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocalypse of Ezra / Ezra Apocalypse / 4 Ezra / Ezra Shealtiel",
+      "bookNameEnglishGuide": "Apocalypse of Ezra / Ezra Apocalypse / 4 Ezra / Ezra Shealtiel",
       "typicalSection": "???"
     },
     "EZ5": {
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
       "referenceNumber": 93,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "5 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "5Ezra",
@@ -6372,16 +8452,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "200",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "5 Ezra / 3 Esdras / 5 Esdras",
+      "bookNameEnglishGuide": "5 Ezra / 3 Esdras / 5 Esdras",
       "typicalSection": "???"
     },
     "EZ6": {
+      "originalLanguageCode": "lat",
+      "bookName": "(Unknown)",
       "referenceNumber": 94,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "6 Ezra",
       "OSISAbbreviation": null,
       "SwordAbbreviation": "6Ezra",
@@ -6391,16 +8476,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "201",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "2",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "6 Ezra / 5 Esdras / 6 Esdras",
+      "bookNameEnglishGuide": "6 Ezra / 5 Esdras / 6 Esdras",
       "typicalSection": "???"
     },
     "RVE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 95,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "RevEzra",
       "SwordAbbreviation": "RevEzra",
@@ -6410,16 +8500,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Revelation of Ezra",
+      "bookNameEnglishGuide": "Revelation of Ezra",
       "typicalSection": "PS"
     },
     "VSE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 96,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "VisEzra",
       "SwordAbbreviation": "VisEzra",
@@ -6429,16 +8524,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Vison of Ezra",
+      "bookNameEnglishGuide": "Vison of Ezra",
       "typicalSection": "PS"
     },
     "LJE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 100,
+      "shortAbbreviation": "LJe",
       "SBLAbbreviation": "Ep Jer",
       "OSISAbbreviation": "EpJer",
       "SwordAbbreviation": "EpJer",
@@ -6448,6 +8548,8 @@
       "USXNumberString": "073",
       "UnboundCodeString": "73A",
       "BibleditNumberString": "76",
+      "LogosNumberString": "46",
+      "LogosAbbreviation": "LetJer",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6455,11 +8557,14 @@
       "possibleAlternativeBooks": [
         "LJB"
       ],
-      "nameEnglish": "Letter of Jeremiah / Epistle of Jeremiah",
+      "bookNameEnglishGuide": "Letter of Jeremiah / Epistle of Jeremiah",
       "typicalSection": "DC"
     },
     "BAR": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 101,
+      "shortAbbreviation": "Bar",
       "SBLAbbreviation": "Bar",
       "OSISAbbreviation": "Bar",
       "SwordAbbreviation": "Bar",
@@ -6469,18 +8574,23 @@
       "USXNumberString": "072",
       "UnboundCodeString": "72A",
       "BibleditNumberString": "75",
+      "LogosNumberString": "45",
+      "LogosAbbreviation": "Bar",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "5,6",
+      "numExpectedChapters": "5",
       "possibleAlternativeBooks": [
         "LJB"
       ],
-      "nameEnglish": "Baruch / 1 Baruch",
+      "bookNameEnglishGuide": "Baruch / 1 Baruch",
       "typicalSection": "DC"
     },
     "LJB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 102,
+      "shortAbbreviation": null,
       "SBLAbbreviation": "Ep Jer",
       "OSISAbbreviation": "EpJer",
       "SwordAbbreviation": "EpJer",
@@ -6490,6 +8600,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6497,11 +8609,14 @@
       "possibleAlternativeBooks": [
         "BAR"
       ],
-      "nameEnglish": "Letter of Jeremiah with Baruch / Epistle of Jeremiah with Baruch",
+      "bookNameEnglishGuide": "Letter of Jeremiah with Baruch / Epistle of Jeremiah with Baruch",
       "typicalSection": "DC"
     },
     "BA2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 103,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Bar",
@@ -6511,6 +8626,8 @@
       "USXNumberString": "114",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "96",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6518,11 +8635,14 @@
       "possibleAlternativeBooks": [
         "LB2"
       ],
-      "nameEnglish": "2 Baruch / Apocalypse of Baruch",
+      "bookNameEnglishGuide": "2 Baruch / Apocalypse of Baruch",
       "typicalSection": "DC"
     },
     "LBA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 104,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpBar",
@@ -6532,6 +8652,8 @@
       "USXNumberString": "115",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "97",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6539,11 +8661,14 @@
       "possibleAlternativeBooks": [
         "LB2"
       ],
-      "nameEnglish": "Letter of Baruch / Epistle of Baruch",
+      "bookNameEnglishGuide": "Letter of Baruch / Epistle of Baruch",
       "typicalSection": "DC"
     },
     "LB2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 105,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6553,6 +8678,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "99",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -6561,11 +8688,14 @@
         "BA2",
         "LBA"
       ],
-      "nameEnglish": "2 Baruch with the Letter of Baruch",
+      "bookNameEnglishGuide": "2 Baruch with the Letter of Baruch",
       "typicalSection": "???"
     },
     "BA3": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 106,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "3Bar",
       "SwordAbbreviation": "3Bar",
@@ -6575,16 +8705,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Baruch",
+      "bookNameEnglishGuide": "3 Baruch",
       "typicalSection": "???"
     },
     "BA4": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 107,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "4Bar",
@@ -6594,16 +8729,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "208",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "6,5",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "4 Baruch / Paralipomenon of Jeremiah / Paraleipomena Ieremiou / Rest of the Words of Baruch",
+      "bookNameEnglishGuide": "4 Baruch / Paralipomenon of Jeremiah / Paraleipomena Ieremiou / Rest of the Words of Baruch",
       "typicalSection": "???"
     },
     "JRA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 108,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "AddJer",
@@ -6613,16 +8753,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Additions to Jeremiah / Rest of Jeremiah",
+      "bookNameEnglishGuide": "Additions to Jeremiah / Rest of Jeremiah",
       "typicalSection": "???"
     },
     "PSJ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 109,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PsJos",
@@ -6632,16 +8777,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Pseudo-Josephus",
+      "bookNameEnglishGuide": "Pseudo-Josephus",
       "typicalSection": "???"
     },
     "MAC": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 110,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6651,16 +8801,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Maccabees",
+      "bookNameEnglishGuide": "Maccabees",
       "typicalSection": "DC"
     },
     "MA1": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 111,
+      "shortAbbreviation": "1Ma",
       "SBLAbbreviation": "1 Macc",
       "OSISAbbreviation": "1Macc",
       "SwordAbbreviation": "1Macc",
@@ -6670,16 +8825,21 @@
       "USXNumberString": "077",
       "UnboundCodeString": "77A",
       "BibleditNumberString": "80",
+      "LogosNumberString": "50",
+      "LogosAbbreviation": "1Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Maccabees",
+      "bookNameEnglishGuide": "1 Maccabees",
       "typicalSection": "DC"
     },
     "MA2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 112,
+      "shortAbbreviation": "2Ma",
       "SBLAbbreviation": "2 Macc",
       "OSISAbbreviation": "2Macc",
       "SwordAbbreviation": "2Macc",
@@ -6689,16 +8849,21 @@
       "USXNumberString": "078",
       "UnboundCodeString": "78A",
       "BibleditNumberString": "81",
+      "LogosNumberString": "51",
+      "LogosAbbreviation": "2Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "15",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Maccabees",
+      "bookNameEnglishGuide": "2 Maccabees",
       "typicalSection": "DC"
     },
     "MA3": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 113,
+      "shortAbbreviation": "3Ma",
       "SBLAbbreviation": "3 Macc",
       "OSISAbbreviation": "3Macc",
       "SwordAbbreviation": "3Macc",
@@ -6708,16 +8873,21 @@
       "USXNumberString": "079",
       "UnboundCodeString": "79A",
       "BibleditNumberString": "85",
+      "LogosNumberString": "55",
+      "LogosAbbreviation": "3Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "7",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Maccabees",
+      "bookNameEnglishGuide": "3 Maccabees",
       "typicalSection": "DC"
     },
     "MA4": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 114,
+      "shortAbbreviation": "4Ma",
       "SBLAbbreviation": "4 Macc",
       "OSISAbbreviation": "4Macc",
       "SwordAbbreviation": "4Macc",
@@ -6727,16 +8897,21 @@
       "USXNumberString": "080",
       "UnboundCodeString": "80A",
       "BibleditNumberString": "87",
+      "LogosNumberString": "57",
+      "LogosAbbreviation": "4Mac",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "18",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "4 Maccabees",
+      "bookNameEnglishGuide": "4 Maccabees",
       "typicalSection": "DC"
     },
     "MA5": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 115,
+      "shortAbbreviation": "5Ma",
       "SBLAbbreviation": null,
       "OSISAbbreviation": "5Macc",
       "SwordAbbreviation": "5Macc",
@@ -6746,16 +8921,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "5 Maccabees",
+      "bookNameEnglishGuide": "5 Maccabees",
       "typicalSection": "???"
     },
     "MQ1": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 116,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1Meq",
@@ -6765,16 +8945,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "204",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "36",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Meqabyan / 1 Makabian / Mekabis of Benjamin",
+      "bookNameEnglishGuide": "1 Meqabyan / 1 Makabian / Mekabis of Benjamin",
       "typicalSection": "???"
     },
     "MQ2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 117,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Meq",
@@ -6784,16 +8969,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "205",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "20,21",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Meqabyan / 2 Makabian / Mekabis of Moab",
+      "bookNameEnglishGuide": "2 Meqabyan / 2 Makabian / Mekabis of Moab",
       "typicalSection": "???"
     },
     "MQ3": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 118,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "3Meq",
@@ -6803,16 +8993,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "206",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "10",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Meqabyan / 3 Makabian",
+      "bookNameEnglishGuide": "3 Meqabyan / 3 Makabian",
       "typicalSection": "???"
     },
     "PB1": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 120,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6822,16 +9017,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "41",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 1 / Psalms Book I",
+      "bookNameEnglishGuide": "Psalms Book 1 / Psalms Book I",
       "typicalSection": "OT"
     },
     "PB2": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 121,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6841,16 +9041,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "31",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 2 / Psalms Book II",
+      "bookNameEnglishGuide": "Psalms Book 2 / Psalms Book II",
       "typicalSection": "OT"
     },
     "PB3": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 122,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6860,16 +9065,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "17",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 3 / Psalms Book III",
+      "bookNameEnglishGuide": "Psalms Book 3 / Psalms Book III",
       "typicalSection": "OT"
     },
     "PB4": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 123,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6879,16 +9089,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "17",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 4 / Psalms Book IV",
+      "bookNameEnglishGuide": "Psalms Book 4 / Psalms Book IV",
       "typicalSection": "OT"
     },
     "PB5": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 124,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -6898,16 +9113,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "44",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms Book 5 / Psalms Book V",
+      "bookNameEnglishGuide": "Psalms Book 5 / Psalms Book V",
       "typicalSection": "OT"
     },
     "PSB": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 125,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PsMet",
@@ -6917,16 +9137,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "150",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalms B / Liturgical Psalms / Metrical Psalms / Alternative Psalms / Grail Psalms",
+      "bookNameEnglishGuide": "Psalms B / Liturgical Psalms / Metrical Psalms / Alternative Psalms / Grail Psalms",
       "typicalSection": "OT+"
     },
     "PS2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 126,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "AddPs",
       "SwordAbbreviation": "AddPs",
@@ -6936,16 +9161,21 @@
       "USXNumberString": "084",
       "UnboundCodeString": "84A",
       "BibleditNumberString": "84",
+      "LogosNumberString": "54",
+      "LogosAbbreviation": "Ps151",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Psalm 151",
+      "bookNameEnglishGuide": "Psalm 151",
       "typicalSection": "OT+"
     },
     "PS3": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 127,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "5ApocSyrPss",
@@ -6955,16 +9185,21 @@
       "USXNumberString": "113",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "202",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "5,4",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Syriac Psalms 152-155 / Five apocryphal Syriac Psalms / Additional Syriac Psalms",
+      "bookNameEnglishGuide": "Syriac Psalms 152-155 / Five apocryphal Syriac Psalms / Additional Syriac Psalms",
       "typicalSection": "???"
     },
     "PSS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 128,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PssSol",
@@ -6974,16 +9209,21 @@
       "USXNumberString": "086",
       "UnboundCodeString": "85A",
       "BibleditNumberString": null,
+      "LogosNumberString": "59",
+      "LogosAbbreviation": "PsSol",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "18",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Additional Psalms of Solomon",
+      "bookNameEnglishGuide": "Additional Psalms of Solomon",
       "typicalSection": "???"
     },
     "LAO": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 130,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpLao",
@@ -6993,16 +9233,21 @@
       "USXNumberString": "123",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "60",
+      "LogosAbbreviation": "Laod",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter to the Laodiceans",
+      "bookNameEnglishGuide": "Letter to the Laodiceans",
       "typicalSection": "NT+"
     },
     "ODE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 131,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Odes",
@@ -7012,16 +9257,21 @@
       "USXNumberString": "085",
       "UnboundCodeString": "86A",
       "BibleditNumberString": null,
+      "LogosNumberString": "58",
+      "LogosAbbreviation": "Ode",
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "14",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Odes / Odae",
+      "bookNameEnglishGuide": "Odes / Odae",
       "typicalSection": "DC"
     },
     "PSO": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 132,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrSol",
@@ -7031,16 +9281,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Solomon",
+      "bookNameEnglishGuide": "Prayer of Solomon",
       "typicalSection": "DC"
     },
     "PJE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 133,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrJer",
@@ -7050,16 +9305,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Jeremiah",
+      "bookNameEnglishGuide": "Prayer of Jeremiah",
       "typicalSection": "DC"
     },
     "WSI": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 134,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "WSir",
@@ -7069,16 +9329,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Words of Sirach",
+      "bookNameEnglishGuide": "Words of Sirach",
       "typicalSection": "???"
     },
     "COP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 135,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "EpCorPaul",
@@ -7088,16 +9353,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of the Corinthians to Paul / Epistle of the Corinthians to Paul",
+      "bookNameEnglishGuide": "Letter of the Corinthians to Paul / Epistle of the Corinthians to Paul",
       "typicalSection": "NT+"
     },
     "CO3": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 136,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "3Cor",
@@ -7107,16 +9377,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "3 Corinthians",
+      "bookNameEnglishGuide": "3 Corinthians",
       "typicalSection": "NT+"
     },
     "EUT": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 137,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PrEuth",
@@ -7126,16 +9401,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Prayer of Euthalius",
+      "bookNameEnglishGuide": "Prayer of Euthalius",
       "typicalSection": "NT+"
     },
     "DOJ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 138,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "DormJohn",
@@ -7145,16 +9425,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "1",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Dormition of John",
+      "bookNameEnglishGuide": "Dormition of John",
       "typicalSection": "NT+"
     },
     "JUB": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 140,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Jub",
@@ -7164,16 +9449,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "203",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "34",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Jubilees",
+      "bookNameEnglishGuide": "Jubilees",
       "typicalSection": "DC"
     },
     "ENO": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
       "referenceNumber": 141,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1En",
@@ -7183,16 +9473,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "88",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "42",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Enoch / 1 Enoch / Ethiopic Apocalypse of Enoch",
+      "bookNameEnglishGuide": "Enoch / 1 Enoch / Ethiopic Apocalypse of Enoch",
       "typicalSection": "???"
     },
     "EN2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 142,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": "2En",
       "SwordAbbreviation": "2En",
@@ -7202,16 +9497,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Enoch",
+      "bookNameEnglishGuide": "2 Enoch",
       "typicalSection": "???"
     },
     "REP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 143,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Rep",
@@ -7221,16 +9521,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "207",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "6",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Reproof / Tegsas / Tegsats / Taagsas",
+      "bookNameEnglishGuide": "Reproof / Tegsas / Tegsats / Taagsas",
       "typicalSection": "???"
     },
     "LBB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 144,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Barn",
@@ -7240,16 +9545,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of Barnabas / Epistle of Barnabas / Barnabas",
+      "bookNameEnglishGuide": "Letter of Barnabas / Epistle of Barnabas / Barnabas",
       "typicalSection": "???"
     },
     "CL1": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 150,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "1Clem",
@@ -7259,16 +9569,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "65",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "1 Clement",
+      "bookNameEnglishGuide": "1 Clement",
       "typicalSection": "???"
     },
     "CL2": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 151,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "2Clem",
@@ -7278,16 +9593,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "20",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "2 Clement",
+      "bookNameEnglishGuide": "2 Clement",
       "typicalSection": "???"
     },
     "DID": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 153,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Did",
@@ -7297,16 +9617,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": "16",
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Didache",
+      "bookNameEnglishGuide": "Didache",
       "typicalSection": "???"
     },
     "JSA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 154,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "JoshA",
@@ -7316,6 +9641,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -7323,53 +9650,118 @@
       "possibleAlternativeBooks": [
         "JOS"
       ],
-      "nameEnglish": "Joshua A",
+      "bookNameEnglishGuide": "Joshua A",
       "typicalSection": "???"
     },
-    "JGB": {
+    "JSB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 155,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
-      "SwordAbbreviation": "JudgB",
+      "SwordAbbreviation": "JoshB",
       "CCELNumberString": null,
-      "USFMAbbreviation": "JdB",
+      "USFMAbbreviation": "JsB",
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "21",
+      "numExpectedChapters": "24",
       "possibleAlternativeBooks": [
-        "JDG"
+        "JOS"
       ],
-      "nameEnglish": "Judges B",
+      "bookNameEnglishGuide": "Joshua B",
       "typicalSection": "???"
     },
-    "TBS": {
+    "JGA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 156,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
-      "SwordAbbreviation": "TobS",
+      "SwordAbbreviation": "JudgA",
       "CCELNumberString": null,
-      "USFMAbbreviation": "TbS",
+      "USFMAbbreviation": "JdA",
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "14",
+      "numExpectedChapters": "21",
       "possibleAlternativeBooks": [
-        "TOB"
+        "JDG"
       ],
-      "nameEnglish": "Tobit S",
+      "bookNameEnglishGuide": "Judges A",
       "typicalSection": "???"
     },
-    "SST": {
+    "JGB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 157,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": "JudgB",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "JdB",
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "21",
+      "possibleAlternativeBooks": [
+        "JDG"
+      ],
+      "bookNameEnglishGuide": "Judges B",
+      "typicalSection": "???"
+    },
+    "TBS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 158,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": "TobS",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "TbS",
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "14",
+      "possibleAlternativeBooks": [
+        "TOB"
+      ],
+      "bookNameEnglishGuide": "Tobit S",
+      "typicalSection": "???"
+    },
+    "SST": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 159,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "SusTh",
@@ -7379,6 +9771,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -7386,11 +9780,14 @@
       "possibleAlternativeBooks": [
         "SUS"
       ],
-      "nameEnglish": "Susanna \u03b8 / Susanna Th",
+      "bookNameEnglishGuide": "Susanna θ / Susanna Th",
       "typicalSection": "???"
     },
     "DNT": {
-      "referenceNumber": 158,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 160,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "DanTh",
@@ -7400,6 +9797,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -7410,11 +9809,14 @@
         "DNA",
         "DNC"
       ],
-      "nameEnglish": "Daniel \u03b8 / Daniel Th",
+      "bookNameEnglishGuide": "Daniel θ / Daniel Th",
       "typicalSection": "???"
     },
     "BLT": {
-      "referenceNumber": 159,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 161,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "BelTh",
@@ -7424,6 +9826,8 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
@@ -7431,11 +9835,14 @@
       "possibleAlternativeBooks": [
         "BEL"
       ],
-      "nameEnglish": "Bel and the dragon \u03b8 / Bel and the dragon Th",
+      "bookNameEnglishGuide": "Bel and the dragon θ / Bel and the dragon Th",
       "typicalSection": "???"
     },
     "GHE": {
-      "referenceNumber": 160,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 170,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7445,16 +9852,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of the Hebrews",
+      "bookNameEnglishGuide": "Gospel of the Hebrews",
       "typicalSection": "PS"
     },
     "GTR": {
-      "referenceNumber": 161,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 171,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7464,16 +9876,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Truth",
+      "bookNameEnglishGuide": "Gospel of Truth",
       "typicalSection": "PS"
     },
     "GMA": {
-      "referenceNumber": 162,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 172,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7483,16 +9900,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Mary",
+      "bookNameEnglishGuide": "Gospel of Mary",
       "typicalSection": "PS"
     },
     "GMC": {
-      "referenceNumber": 163,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 173,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7502,16 +9924,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Marcion",
+      "bookNameEnglishGuide": "Gospel of Marcion",
       "typicalSection": "PS"
     },
     "GTW": {
-      "referenceNumber": 164,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 174,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7521,16 +9948,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of the Twelve",
+      "bookNameEnglishGuide": "Gospel of the Twelve",
       "typicalSection": "PS"
     },
     "GPH": {
-      "referenceNumber": 165,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 175,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7540,16 +9972,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Philip",
+      "bookNameEnglishGuide": "Gospel of Philip",
       "typicalSection": "PS"
     },
     "GTH": {
-      "referenceNumber": 166,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 176,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7559,16 +9996,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Thomas",
+      "bookNameEnglishGuide": "Gospel of Thomas",
       "typicalSection": "PS"
     },
     "GJU": {
-      "referenceNumber": 167,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 177,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7578,16 +10020,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Judas",
+      "bookNameEnglishGuide": "Gospel of Judas",
       "typicalSection": "PS"
     },
     "GBA": {
-      "referenceNumber": 168,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 178,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7597,16 +10044,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Gospel of Bartholomew",
+      "bookNameEnglishGuide": "Gospel of Bartholomew",
       "typicalSection": "PS"
     },
     "AJA": {
-      "referenceNumber": 169,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 179,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7616,16 +10068,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocrypha of James / Apocryphal James",
+      "bookNameEnglishGuide": "Apocrypha of James / Apocryphal James",
       "typicalSection": "PS"
     },
     "WJC": {
-      "referenceNumber": 170,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 180,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7635,16 +10092,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Wisdom of Jesus Christ",
+      "bookNameEnglishGuide": "Wisdom of Jesus Christ",
       "typicalSection": "PS"
     },
     "TAD": {
-      "referenceNumber": 180,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 190,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7654,16 +10116,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Adam",
+      "bookNameEnglishGuide": "Testament of Adam",
       "typicalSection": "PS"
     },
     "LAE": {
-      "referenceNumber": 181,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 191,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7673,16 +10140,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Life of Adam and Eve",
+      "bookNameEnglishGuide": "Life of Adam and Eve",
       "typicalSection": "PS"
     },
     "ASS": {
-      "referenceNumber": 182,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 192,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7692,16 +10164,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Assumption of Moses / Testament of Moses",
+      "bookNameEnglishGuide": "Assumption of Moses / Testament of Moses",
       "typicalSection": "PS"
     },
     "TSO": {
-      "referenceNumber": 183,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 193,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7711,16 +10188,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Solomon",
+      "bookNameEnglishGuide": "Testament of Solomon",
       "typicalSection": "PS"
     },
     "TJB": {
-      "referenceNumber": 184,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 194,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7730,16 +10212,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Job",
+      "bookNameEnglishGuide": "Testament of Job",
       "typicalSection": "PS"
     },
     "MAI": {
-      "referenceNumber": 185,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 195,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7749,16 +10236,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Martyrdom and Ascension of Isaiah",
+      "bookNameEnglishGuide": "Martyrdom and Ascension of Isaiah",
       "typicalSection": "PS"
     },
     "AEZ": {
-      "referenceNumber": 186,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 196,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7768,16 +10260,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
+      "bookNameEnglishGuide": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
       "typicalSection": "PS"
     },
     "EZT": {
-      "referenceNumber": 187,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 197,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7787,16 +10284,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ezekiel the Tragedian",
+      "bookNameEnglishGuide": "Ezekiel the Tragedian",
       "typicalSection": "PS"
     },
     "EUP": {
-      "referenceNumber": 188,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 198,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7806,16 +10308,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Eupolemus",
+      "bookNameEnglishGuide": "Eupolemus",
       "typicalSection": "PS"
     },
     "PEU": {
-      "referenceNumber": 189,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 199,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7825,16 +10332,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Pseudo of Eupolemus / Pseudo-Eupolemus",
+      "bookNameEnglishGuide": "Pseudo of Eupolemus / Pseudo-Eupolemus",
       "typicalSection": "PS"
     },
     "VAM": {
-      "referenceNumber": 190,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 200,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7844,16 +10356,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Visions of Amram",
+      "bookNameEnglishGuide": "Visions of Amram",
       "typicalSection": "PS"
     },
     "LAR": {
-      "referenceNumber": 191,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 201,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7863,16 +10380,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Letter of Aristeas / Epistle of Aristeas",
+      "bookNameEnglishGuide": "Letter of Aristeas / Epistle of Aristeas",
       "typicalSection": "PS"
     },
     "ARI": {
-      "referenceNumber": 192,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 202,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7882,16 +10404,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Aristeas the Exegete",
+      "bookNameEnglishGuide": "Aristeas the Exegete",
       "typicalSection": "PS"
     },
     "ABL": {
-      "referenceNumber": 193,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 203,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7901,16 +10428,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Aristobulus",
+      "bookNameEnglishGuide": "Aristobulus",
       "typicalSection": "PS"
     },
     "ART": {
-      "referenceNumber": 194,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 204,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7920,16 +10452,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Artapanus",
+      "bookNameEnglishGuide": "Artapanus",
       "typicalSection": "PS"
     },
     "CLM": {
-      "referenceNumber": 195,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 205,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7939,16 +10476,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Cleodemus Malchus",
+      "bookNameEnglishGuide": "Cleodemus Malchus",
       "typicalSection": "PS"
     },
     "ELM": {
-      "referenceNumber": 196,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 206,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7958,16 +10500,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Eldad and Modad",
+      "bookNameEnglishGuide": "Eldad and Modad",
       "typicalSection": "PS"
     },
     "HRE": {
-      "referenceNumber": 197,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 207,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7977,16 +10524,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "History of the Rechabites",
+      "bookNameEnglishGuide": "History of the Rechabites",
       "typicalSection": "PS"
     },
     "LPR": {
-      "referenceNumber": 198,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 208,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -7996,16 +10548,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Lives of the Prophets",
+      "bookNameEnglishGuide": "Lives of the Prophets",
       "typicalSection": "PS"
     },
     "EPL": {
-      "referenceNumber": 199,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 209,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8015,16 +10572,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Philo the Epic Poet",
+      "bookNameEnglishGuide": "Philo the Epic Poet",
       "typicalSection": "PS"
     },
     "TEO": {
-      "referenceNumber": 200,
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 210,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8034,16 +10596,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Theodotus",
+      "bookNameEnglishGuide": "Theodotus",
       "typicalSection": "PS"
     },
     "TTP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 250,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr",
@@ -8053,16 +10620,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testaments of the Twelve Patriarchs",
+      "bookNameEnglishGuide": "Testaments of the Twelve Patriarchs",
       "typicalSection": "PS"
     },
     "TSA": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 251,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TAsh",
@@ -8072,16 +10644,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Asher",
+      "bookNameEnglishGuide": "Testament of Asher",
       "typicalSection": "PS"
     },
     "TSB": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 252,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TBenj",
@@ -8091,16 +10668,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Benjamin",
+      "bookNameEnglishGuide": "Testament of Benjamin",
       "typicalSection": "PS"
     },
     "TSD": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 253,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TDan",
@@ -8110,16 +10692,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Dan",
+      "bookNameEnglishGuide": "Testament of Dan",
       "typicalSection": "PS"
     },
     "TSG": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 254,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TGad",
@@ -8129,16 +10716,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Gad",
+      "bookNameEnglishGuide": "Testament of Gad",
       "typicalSection": "PS"
     },
     "TSI": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 255,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TIss",
@@ -8148,16 +10740,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Issachar",
+      "bookNameEnglishGuide": "Testament of Issachar",
       "typicalSection": "PS"
     },
     "TSJ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 256,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TJos",
@@ -8167,16 +10764,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Joseph",
+      "bookNameEnglishGuide": "Testament of Joseph",
       "typicalSection": "PS"
     },
     "TSY": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 257,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TJud",
@@ -8186,16 +10788,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Judah",
+      "bookNameEnglishGuide": "Testament of Judah",
       "typicalSection": "PS"
     },
     "TSL": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 258,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TLevi",
@@ -8205,16 +10812,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Levi",
+      "bookNameEnglishGuide": "Testament of Levi",
       "typicalSection": "PS"
     },
     "TSN": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 259,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TNaph",
@@ -8224,16 +10836,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Naphtali",
+      "bookNameEnglishGuide": "Testament of Naphtali",
       "typicalSection": "PS"
     },
     "TSR": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 260,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TReu",
@@ -8243,16 +10860,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Reuben",
+      "bookNameEnglishGuide": "Testament of Reuben",
       "typicalSection": "PS"
     },
     "TSS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 261,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TSim",
@@ -8262,16 +10884,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Simeon",
+      "bookNameEnglishGuide": "Testament of Simeon",
       "typicalSection": "PS"
     },
     "TSZ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 262,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "T12Patr.TZeb",
@@ -8281,16 +10908,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Testament of Zebulun",
+      "bookNameEnglishGuide": "Testament of Zebulun",
       "typicalSection": "PS"
     },
     "JJW": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 270,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "JosephusJWvi",
@@ -8300,16 +10932,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Josephus Jewish War VI",
+      "bookNameEnglishGuide": "Josephus Jewish War VI",
       "typicalSection": "PS"
     },
     "SHE": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 280,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -8319,16 +10956,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas",
+      "bookNameEnglishGuide": "Shepherd of Hermas",
       "typicalSection": "PS"
     },
     "SHM": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 281,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -8338,16 +10980,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Mandates",
+      "bookNameEnglishGuide": "Shepherd of Hermas Mandates",
       "typicalSection": "PS"
     },
     "SHS": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 282,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -8357,16 +11004,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Similitudes",
+      "bookNameEnglishGuide": "Shepherd of Hermas Similitudes",
       "typicalSection": "PS"
     },
     "SHV": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
       "referenceNumber": 283,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Herm",
@@ -8376,16 +11028,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Shepherd of Hermas Visions",
+      "bookNameEnglishGuide": "Shepherd of Hermas Visions",
       "typicalSection": "PS"
     },
     "IGE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 290,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnEph",
@@ -8395,16 +11052,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Ephesians",
+      "bookNameEnglishGuide": "Ignatius to the Ephesians",
       "typicalSection": "PS"
     },
     "IGM": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 291,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnMagn",
@@ -8414,16 +11076,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Magnesians",
+      "bookNameEnglishGuide": "Ignatius to the Magnesians",
       "typicalSection": "PS"
     },
     "IGT": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 292,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnTrall",
@@ -8433,16 +11100,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Trallians",
+      "bookNameEnglishGuide": "Ignatius to the Trallians",
       "typicalSection": "PS"
     },
     "IGR": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 293,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnRom",
@@ -8452,16 +11124,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Romans",
+      "bookNameEnglishGuide": "Ignatius to the Romans",
       "typicalSection": "PS"
     },
     "IGP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 294,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnPhld",
@@ -8471,16 +11148,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Philadelphians",
+      "bookNameEnglishGuide": "Ignatius to the Philadelphians",
       "typicalSection": "PS"
     },
     "IGS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 295,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnSmyrn",
@@ -8490,16 +11172,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to the Smyrnaeans",
+      "bookNameEnglishGuide": "Ignatius to the Smyrnaeans",
       "typicalSection": "PS"
     },
     "IGC": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 296,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "IgnPol",
@@ -8509,16 +11196,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Ignatius to Polycarp",
+      "bookNameEnglishGuide": "Ignatius to Polycarp",
       "typicalSection": "PS"
     },
     "PCP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 297,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PolPhil",
@@ -8528,16 +11220,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Polycarp to the Philippians",
+      "bookNameEnglishGuide": "Polycarp to the Philippians",
       "typicalSection": "PS"
     },
     "MPC": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 298,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "MartPol",
@@ -8547,16 +11244,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Martydom of Polycarp",
+      "bookNameEnglishGuide": "Martydom of Polycarp",
       "typicalSection": "PS"
     },
     "DIO": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 300,
+      "shortAbbreviation": "Dio",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "Diogn",
@@ -8566,16 +11268,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Diognetus",
+      "bookNameEnglishGuide": "Diognetus",
       "typicalSection": "PS"
     },
     "APC": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 301,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "AposCreed",
@@ -8585,16 +11292,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Apostles' Creed",
+      "bookNameEnglishGuide": "Apostles' Creed",
       "typicalSection": "PS"
     },
     "FOP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 302,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "PapFrag",
@@ -8604,16 +11316,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Fragments of Papias",
+      "bookNameEnglishGuide": "Fragments of Papias",
       "typicalSection": "PS"
     },
     "ROE": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 303,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "RelElders",
@@ -8623,16 +11340,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Reliques of the Elders",
+      "bookNameEnglishGuide": "Reliques of the Elders",
       "typicalSection": "PS"
     },
     "FOQ": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 304,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "QuadFrag",
@@ -8642,16 +11364,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Fragment of Quadratus",
+      "bookNameEnglishGuide": "Fragment of Quadratus",
       "typicalSection": "PS"
     },
     "TAT": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
       "referenceNumber": 310,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": "TatDiat",
@@ -8661,16 +11388,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Tatian / Tatian's Diatessaron / Diatessaron",
+      "bookNameEnglishGuide": "Tatian / Tatian's Diatessaron / Diatessaron",
       "typicalSection": "PS"
     },
-    "MOS": {
-      "referenceNumber": 600,
+    "P4D": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 400,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8680,22 +11412,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "89",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "187",
-      "possibleAlternativeBooks": [
-        "GEN",
-        "EXO",
-        "LEV",
-        "NUM",
-        "DEU"
-      ],
-      "nameEnglish": "Books of Moses",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Plea for Deliverance",
+      "typicalSection": "DSS5"
     },
-    "SAM": {
-      "referenceNumber": 610,
+    "A2Z": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 401,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8705,19 +11436,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "90",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "55",
-      "possibleAlternativeBooks": [
-        "SA1",
-        "SA2"
-      ],
-      "nameEnglish": "Samuel",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apostrophe to Zion",
+      "typicalSection": "DSS5"
     },
-    "KGS": {
-      "referenceNumber": 620,
+    "EHY": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 402,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8727,19 +11460,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "91",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "47",
-      "possibleAlternativeBooks": [
-        "KI1",
-        "KI2"
-      ],
-      "nameEnglish": "Kings",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Eschatalogical Hymn",
+      "typicalSection": "DSS5"
     },
-    "SMK": {
-      "referenceNumber": 625,
+    "A2J": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 403,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8749,23 +11484,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "92",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "102",
-      "possibleAlternativeBooks": [
-        "SAM",
-        "KGS",
-        "SA1",
-        "SA2",
-        "KI1",
-        "KI2"
-      ],
-      "nameEnglish": "Samuel-Kings",
-      "typicalSection": "NT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apostrophe to Judah",
+      "typicalSection": "DSS5"
     },
-    "CHR": {
-      "referenceNumber": 630,
+    "H2C": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 404,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8775,41 +11508,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "93",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "65",
-      "possibleAlternativeBooks": [
-        "CH1",
-        "CH2"
-      ],
-      "nameEnglish": "Chronicles",
-      "typicalSection": "OT"
-    },
-    "EZN": {
-      "referenceNumber": 640,
-      "SBLAbbreviation": "Ezra",
-      "OSISAbbreviation": "Ezra",
-      "SwordAbbreviation": "Ezra",
-      "CCELNumberString": null,
-      "USFMAbbreviation": "Ezr",
-      "USFMNumberString": "15",
-      "USXNumberString": null,
-      "UnboundCodeString": null,
-      "BibleditNumberString": null,
-      "NETBibleAbbreviation": "Ezr",
-      "DrupalBibleAbbreviation": "Ezr",
-      "ByzantineAbbreviation": null,
-      "numExpectedChapters": "26",
-      "possibleAlternativeBooks": [
-        "EZR",
-        "NEH"
-      ],
-      "nameEnglish": "Ezra-Nehemiah / 1 Esdras",
-      "typicalSection": "OT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Hymn to the Creator",
+      "typicalSection": "DSS5"
     },
-    "P12": {
-      "referenceNumber": 650,
+    "CMP": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 405,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8819,16 +11532,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "94",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Twelve Prophets",
-      "typicalSection": "OT"
+      "bookNameEnglishGuide": "David's Compositions",
+      "typicalSection": "DSS5"
     },
-    "LKA": {
-      "referenceNumber": 690,
+    "APS": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 406,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8838,38 +11556,45 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "95",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "52",
-      "possibleAlternativeBooks": [
-        "LUK",
-        "ACT"
-      ],
-      "nameEnglish": "Luke-Acts",
-      "typicalSection": "NT"
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Apocryphal Psalms",
+      "typicalSection": "DSS5"
     },
-    "FRT": {
-      "referenceNumber": 700,
+    "CAT": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 407,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Frt",
-      "USFMNumberString": "A0",
-      "USXNumberString": "100",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "67",
+      "BibleditNumberString": null,
+      "LogosNumberString": "101",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Generic front matter",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Catena",
+      "typicalSection": "DSS5"
     },
-    "PRF": {
-      "referenceNumber": 705,
+    "P1A": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 408,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8879,16 +11604,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "102",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Preface",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Psalm 151A",
+      "typicalSection": "DSS5"
     },
-    "ACK": {
-      "referenceNumber": 710,
+    "P1B": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 409,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8898,35 +11628,51 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": "103",
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Acknowledgements",
-      "typicalSection": "FRT"
+      "bookNameEnglishGuide": "Psalm 151B",
+      "typicalSection": "DSS5"
     },
-    "INT": {
-      "referenceNumber": 715,
+    "MOS": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 600,
+      "shortAbbreviation": "Mos",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Int",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "107",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Introduction",
-      "typicalSection": "FRT"
+      "numExpectedChapters": "187",
+      "possibleAlternativeBooks": [
+        "GEN",
+        "EXO",
+        "LEV",
+        "NUM",
+        "DEU"
+      ],
+      "bookNameEnglishGuide": "Book of the Pentateuch / Pentateuch / Torah / Books of Moses",
+      "typicalSection": "OT"
     },
-    "TOC": {
-      "referenceNumber": 720,
+    "SAM": {
+      "originalLanguageCode": "hbo",
+      "bookName": "שְׁמוּאֵל",
+      "referenceNumber": 605,
+      "shortAbbreviation": "Sam",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8936,54 +11682,82 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Table of Contents",
-      "typicalSection": "FRT"
+      "numExpectedChapters": "55",
+      "possibleAlternativeBooks": [
+        "SA1",
+        "SA2"
+      ],
+      "bookNameEnglishGuide": "Samuel",
+      "typicalSection": "OT"
     },
-    "GLS": {
-      "referenceNumber": 725,
+    "KGS": {
+      "originalLanguageCode": "hbo",
+      "bookName": "מְלָכִים",
+      "referenceNumber": 610,
+      "shortAbbreviation": "Ki",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Glo",
-      "USFMNumberString": "A9",
-      "USXNumberString": "109",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Glossary",
-      "typicalSection": "BAK"
+      "numExpectedChapters": "47",
+      "possibleAlternativeBooks": [
+        "KI1",
+        "KI2"
+      ],
+      "bookNameEnglishGuide": "Kings",
+      "typicalSection": "OT"
     },
-    "CNC": {
-      "referenceNumber": 730,
+    "SMK": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 615,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Cnc",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Concordance",
-      "typicalSection": "BAK"
+      "numExpectedChapters": "102",
+      "possibleAlternativeBooks": [
+        "SAM",
+        "KGS",
+        "SA1",
+        "SA2",
+        "KI1",
+        "KI2"
+      ],
+      "bookNameEnglishGuide": "Samuel-Kings",
+      "typicalSection": "NT"
     },
-    "TPC": {
-      "referenceNumber": 735,
+    "CHR": {
+      "originalLanguageCode": "hbo",
+      "bookName": "דִּבְרֵי הַיָּמִים",
+      "referenceNumber": 620,
+      "shortAbbreviation": "Chr",
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -8993,35 +11767,89 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Topical Concordance",
-      "typicalSection": "BAK"
+      "numExpectedChapters": "65",
+      "possibleAlternativeBooks": [
+        "CH1",
+        "CH2"
+      ],
+      "bookNameEnglishGuide": "Chronicles",
+      "typicalSection": "OT"
     },
-    "IXN": {
-      "referenceNumber": 740,
+    "EZN": {
+      "originalLanguageCode": "(Unknown)",
+      "bookName": "(Unknown)",
+      "referenceNumber": 625,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": "Ezra",
+      "OSISAbbreviation": "Ezra",
+      "SwordAbbreviation": "Ezra",
+      "CCELNumberString": null,
+      "USFMAbbreviation": "Ezr",
+      "USFMNumberString": "15",
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": "Ezr",
+      "DrupalBibleAbbreviation": "Ezr",
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "26",
+      "possibleAlternativeBooks": [
+        "EZR",
+        "NEH"
+      ],
+      "bookNameEnglishGuide": "Ezra-Nehemiah / 1 Esdras",
+      "typicalSection": "OT"
+    },
+    "P12": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 630,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "NDX",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "111",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Names Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "SPR",
+        "HOS",
+        "JOL",
+        "AMO",
+        "OBA",
+        "JNA",
+        "MIC",
+        "NAH",
+        "HAB",
+        "ZEP",
+        "HAG",
+        "ZEC",
+        "MAL"
+      ],
+      "bookNameEnglishGuide": "Twelve Prophets",
+      "typicalSection": "OT"
     },
-    "IXP": {
-      "referenceNumber": 745,
+    "WOM": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 640,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9031,16 +11859,26 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Places Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "RUT",
+        "SUS",
+        "EST",
+        "JDT"
+      ],
+      "bookNameEnglishGuide": "Book of Women",
+      "typicalSection": "OT"
     },
-    "MAP": {
-      "referenceNumber": 750,
+    "SES": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 645,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9050,73 +11888,165 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Maps",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "JOS",
+        "JDG",
+        "SA1",
+        "SA2",
+        "KI1",
+        "KI2",
+        "PRO",
+        "ECC",
+        "RUT",
+        "SNG",
+        "SIR",
+        "JOB"
+      ],
+      "bookNameEnglishGuide": "Book of Sessions",
+      "typicalSection": "OT"
     },
-    "IXT": {
-      "referenceNumber": 755,
+    "SPR": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 650,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "TDX",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "110",
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Thematic Index",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "P12",
+        "ISA",
+        "JER",
+        "LAM",
+        "HOS",
+        "JOL",
+        "AMO",
+        "OBA",
+        "JNA",
+        "MIC",
+        "NAH",
+        "HAB",
+        "ZEP",
+        "HAG",
+        "ZEC",
+        "MAL"
+      ],
+      "bookNameEnglishGuide": "Book of the Prophets",
+      "typicalSection": "OT"
     },
-    "BAK": {
-      "referenceNumber": 760,
+    "SMC": {
+      "originalLanguageCode": "hbo",
+      "bookName": "(Unknown)",
+      "referenceNumber": 655,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Bak",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
-      "USXNumberString": "101",
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "68",
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
-      "possibleAlternativeBooks": null,
-      "nameEnglish": "Generic back matter",
-      "typicalSection": "BAK"
+      "possibleAlternativeBooks": [
+        "MA1",
+        "MA2",
+        "MA3",
+        "CH1",
+        "CH2",
+        "EZR",
+        "NEH",
+        "WIS",
+        "JDT",
+        "EST",
+        "SUS",
+        "LJE",
+        "LBA",
+        "BAR"
+      ],
+      "bookNameEnglishGuide": "Book of the Maccabees",
+      "typicalSection": "OT"
     },
-    "OTH": {
-      "referenceNumber": 870,
+    "LKA": {
+      "originalLanguageCode": "el-x-koine",
+      "bookName": "(Unknown)",
+      "referenceNumber": 690,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "Oth",
+      "USFMAbbreviation": null,
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "52",
+      "possibleAlternativeBooks": [
+        "LUK",
+        "ACT"
+      ],
+      "bookNameEnglishGuide": "Luke-Acts",
+      "typicalSection": "NT"
+    },
+    "FRT": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Generic front matter)",
+      "referenceNumber": 700,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "Frt",
+      "USFMNumberString": "A0",
+      "USXNumberString": "100",
+      "UnboundCodeString": null,
+      "BibleditNumberString": "67",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified other OTH",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Generic front matter",
+      "typicalSection": "FRT"
     },
-    "WRD": {
-      "referenceNumber": 880,
+    "PRF": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Preface",
+      "referenceNumber": 705,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9126,16 +12056,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Spelling dictionary / word list",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Preface",
+      "typicalSection": "FRT"
     },
-    "WDF": {
-      "referenceNumber": 882,
+    "ACK": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Acknowledgements",
+      "referenceNumber": 710,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9145,35 +12080,45 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": " Word definitions dictionary",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Acknowledgements",
+      "typicalSection": "FRT"
     },
-    "HYP": {
-      "referenceNumber": 884,
+    "INT": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Introduction",
+      "referenceNumber": 715,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
+      "USFMAbbreviation": "Int",
       "USFMNumberString": null,
-      "USXNumberString": null,
+      "USXNumberString": "107",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Hyphenation dictionary",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Introduction",
+      "typicalSection": "FRT"
     },
-    "STR": {
-      "referenceNumber": 888,
+    "TOC": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Table of Contents)",
+      "referenceNumber": 720,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9183,187 +12128,237 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Strong's Database",
-      "typicalSection": "BAK"
+      "bookNameEnglishGuide": "Table of Contents",
+      "typicalSection": "FRT"
     },
-    "SEM": {
-      "referenceNumber": 890,
+    "GLS": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Glossary",
+      "referenceNumber": 725,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
-      "USFMNumberString": null,
-      "USXNumberString": null,
+      "USFMAbbreviation": "Glo",
+      "USFMNumberString": "A9",
+      "USXNumberString": "109",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Semantic Database",
+      "bookNameEnglishGuide": "Glossary",
       "typicalSection": "BAK"
     },
-    "XXA": {
-      "referenceNumber": 800,
+    "CNC": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Concordance",
+      "referenceNumber": 730,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXA",
-      "USFMNumberString": "94",
-      "USXNumberString": "093",
+      "USFMAbbreviation": "Cnc",
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
-      "BibleditNumberString": "69",
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXA",
+      "bookNameEnglishGuide": "Concordance",
       "typicalSection": "BAK"
     },
-    "XXB": {
-      "referenceNumber": 810,
+    "TPC": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Topical Concordance)",
+      "referenceNumber": 735,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXB",
-      "USFMNumberString": "95",
-      "USXNumberString": "094",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXB",
+      "bookNameEnglishGuide": "Topical Concordance",
       "typicalSection": "BAK"
     },
-    "XXC": {
-      "referenceNumber": 820,
+    "IXN": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Names Index)",
+      "referenceNumber": 740,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXC",
-      "USFMNumberString": "96",
-      "USXNumberString": "095",
+      "USFMAbbreviation": "NDX",
+      "USFMNumberString": null,
+      "USXNumberString": "111",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXC",
+      "bookNameEnglishGuide": "Names Index",
       "typicalSection": "BAK"
     },
-    "XXD": {
-      "referenceNumber": 830,
+    "IXP": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Places Index)",
+      "referenceNumber": 745,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXD",
-      "USFMNumberString": "97",
-      "USXNumberString": "096",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXD",
+      "bookNameEnglishGuide": "Places Index",
       "typicalSection": "BAK"
     },
-    "XXE": {
-      "referenceNumber": 840,
+    "MAP": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Maps",
+      "referenceNumber": 750,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXE",
-      "USFMNumberString": "98",
-      "USXNumberString": "097",
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXE",
+      "bookNameEnglishGuide": "Maps",
       "typicalSection": "BAK"
     },
-    "XXF": {
-      "referenceNumber": 850,
+    "IXT": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Thematic Index)",
+      "referenceNumber": 755,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXF",
-      "USFMNumberString": "99",
-      "USXNumberString": "098",
+      "USFMAbbreviation": "TDX",
+      "USFMNumberString": null,
+      "USXNumberString": "110",
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXF",
+      "bookNameEnglishGuide": "Thematic Index",
       "typicalSection": "BAK"
     },
-    "XXG": {
-      "referenceNumber": 860,
+    "BAK": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Generic back matter)",
+      "referenceNumber": 760,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": "XXG",
+      "USFMAbbreviation": "Bak",
       "USFMNumberString": null,
-      "USXNumberString": "099",
+      "USXNumberString": "101",
       "UnboundCodeString": null,
-      "BibleditNumberString": null,
+      "BibleditNumberString": "68",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Unspecified extra XXG",
+      "bookNameEnglishGuide": "Generic back matter",
       "typicalSection": "BAK"
     },
-    "OBS": {
-      "referenceNumber": 997,
+    "OTH": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(OTHER)",
+      "referenceNumber": 870,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
       "CCELNumberString": null,
-      "USFMAbbreviation": null,
+      "USFMAbbreviation": "Oth",
       "USFMNumberString": null,
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
-      "numExpectedChapters": "50",
+      "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "Open Bible Stories",
-      "typicalSection": "???"
+      "bookNameEnglishGuide": "Unspecified other OTH",
+      "typicalSection": "BAK"
     },
-    "TST": {
-      "referenceNumber": 998,
+    "WRD": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Spelling dictionary / word list)",
+      "referenceNumber": 880,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9373,16 +12368,21 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "TEST",
-      "typicalSection": "???"
+      "bookNameEnglishGuide": "Spelling dictionary / word list",
+      "typicalSection": "BAK"
     },
-    "UNK": {
-      "referenceNumber": 999,
+    "WDF": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Word definitions dictionary)",
+      "referenceNumber": 882,
+      "shortAbbreviation": null,
       "SBLAbbreviation": null,
       "OSISAbbreviation": null,
       "SwordAbbreviation": null,
@@ -9392,18 +12392,332 @@
       "USXNumberString": null,
       "UnboundCodeString": null,
       "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
       "NETBibleAbbreviation": null,
       "DrupalBibleAbbreviation": null,
       "ByzantineAbbreviation": null,
       "numExpectedChapters": null,
       "possibleAlternativeBooks": null,
-      "nameEnglish": "UNKNOWN",
-      "typicalSection": "???"
-    }
-  },
-  "sequenceList": [
-    "PRF",
-    "ACK",
+      "bookNameEnglishGuide": "Word definitions dictionary",
+      "typicalSection": "BAK"
+    },
+    "HYP": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Hyphenation dictionary)",
+      "referenceNumber": 884,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Hyphenation dictionary",
+      "typicalSection": "BAK"
+    },
+    "STR": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Strong's Database)",
+      "referenceNumber": 888,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Strong's Database",
+      "typicalSection": "BAK"
+    },
+    "SEM": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(Semantic Database)",
+      "referenceNumber": 890,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Semantic Database",
+      "typicalSection": "BAK"
+    },
+    "XXA": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXA)",
+      "referenceNumber": 800,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXA",
+      "USFMNumberString": "94",
+      "USXNumberString": "093",
+      "UnboundCodeString": null,
+      "BibleditNumberString": "69",
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXA",
+      "typicalSection": "BAK"
+    },
+    "XXB": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXB)",
+      "referenceNumber": 810,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXB",
+      "USFMNumberString": "95",
+      "USXNumberString": "094",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXB",
+      "typicalSection": "BAK"
+    },
+    "XXC": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXC)",
+      "referenceNumber": 820,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXC",
+      "USFMNumberString": "96",
+      "USXNumberString": "095",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXC",
+      "typicalSection": "BAK"
+    },
+    "XXD": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXD)",
+      "referenceNumber": 830,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXD",
+      "USFMNumberString": "97",
+      "USXNumberString": "096",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXD",
+      "typicalSection": "BAK"
+    },
+    "XXE": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXE)",
+      "referenceNumber": 840,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXE",
+      "USFMNumberString": "98",
+      "USXNumberString": "097",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXE",
+      "typicalSection": "BAK"
+    },
+    "XXF": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXF)",
+      "referenceNumber": 850,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXF",
+      "USFMNumberString": "99",
+      "USXNumberString": "098",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXF",
+      "typicalSection": "BAK"
+    },
+    "XXG": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(XXG)",
+      "referenceNumber": 860,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": "XXG",
+      "USFMNumberString": null,
+      "USXNumberString": "099",
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Unspecified extra XXG",
+      "typicalSection": "BAK"
+    },
+    "OBS": {
+      "originalLanguageCode": "(None)",
+      "bookName": "Open Bible Stories",
+      "referenceNumber": 997,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": "50",
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "Open Bible Stories",
+      "typicalSection": "???"
+    },
+    "TST": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(TEST)",
+      "referenceNumber": 998,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "TEST",
+      "typicalSection": "???"
+    },
+    "UNK": {
+      "originalLanguageCode": "(None)",
+      "bookName": "(UNKNOWN)",
+      "referenceNumber": 999,
+      "shortAbbreviation": null,
+      "SBLAbbreviation": null,
+      "OSISAbbreviation": null,
+      "SwordAbbreviation": null,
+      "CCELNumberString": null,
+      "USFMAbbreviation": null,
+      "USFMNumberString": null,
+      "USXNumberString": null,
+      "UnboundCodeString": null,
+      "BibleditNumberString": null,
+      "LogosNumberString": null,
+      "LogosAbbreviation": null,
+      "NETBibleAbbreviation": null,
+      "DrupalBibleAbbreviation": null,
+      "ByzantineAbbreviation": null,
+      "numExpectedChapters": null,
+      "possibleAlternativeBooks": null,
+      "bookNameEnglishGuide": "UNKNOWN",
+      "typicalSection": "???"
+    }
+  },
+  "sequenceList": [
+    "PRF",
+    "ACK",
     "INT",
     "FRT",
     "TOC",
@@ -9414,7 +12728,9 @@
     "NUM",
     "DEU",
     "JOS",
+    "SES",
     "JDG",
+    "WOM",
     "RUT",
     "SAM",
     "SA1",
@@ -9457,6 +12773,7 @@
     "P12",
     "HOS",
     "JOL",
+    "SPR",
     "AMO",
     "OBA",
     "JNA",
@@ -9467,6 +12784,7 @@
     "HAG",
     "ZEC",
     "MAL",
+    "SMC",
     "TOB",
     "JDT",
     "ESG",
@@ -9512,6 +12830,8 @@
     "CL2",
     "DID",
     "JSA",
+    "JSB",
+    "JGA",
     "JGB",
     "TBS",
     "SST",
@@ -9619,6 +12939,16 @@
     "ROE",
     "FOQ",
     "TAT",
+    "P4D",
+    "A2Z",
+    "EHY",
+    "A2J",
+    "H2C",
+    "CMP",
+    "APS",
+    "CAT",
+    "P1A",
+    "P1B",
     "GLS",
     "CNC",
     "TPC",
@@ -9644,79 +12974,76 @@
     "TST",
     "UNK"
   ],
-  "SBLAbbreviationDict": {
-    "GEN": [
+  "shortAbbreviationDict": {
+    "GE": [
       1,
       "GEN"
     ],
-    "EXOD": [
+    "EX": [
       2,
       "EXO"
     ],
-    "LEV": [
+    "LE": [
       3,
       "LEV"
     ],
-    "NUM": [
+    "NU": [
       4,
       "NUM"
     ],
-    "DEUT": [
+    "DT": [
       5,
       "DEU"
     ],
-    "JOSH": [
+    "JOS": [
       6,
       "JOS"
     ],
-    "JUDG": [
+    "JDG": [
       7,
       "JDG"
     ],
-    "RUTH": [
+    "RU": [
       8,
       "RUT"
     ],
-    "1 SAM": [
+    "1SA": [
       9,
       "SA1"
     ],
-    "2 SAM": [
+    "2SA": [
       10,
       "SA2"
     ],
-    "1 KGS": [
+    "1KI": [
       11,
       "KI1"
     ],
-    "2 KGS": [
+    "2KI": [
       12,
       "KI2"
     ],
-    "1 CHR": [
+    "1CH": [
       13,
       "CH1"
     ],
-    "2 CHR": [
+    "2CH": [
       14,
       "CH2"
     ],
-    "EZRA": [
-      640,
-      [
-        "EZR",
-        "EZN"
-      ]
+    "EZR": [
+      15,
+      "EZR"
     ],
-    "NEH": [
+    "NE": [
       16,
       "NEH"
     ],
-    "ESTH": [
+    "ES": [
       17,
       "EST"
     ],
-    "JOB": [
+    "JB": [
       18,
       "JOB"
     ],
@@ -9724,63 +13051,63 @@
       19,
       "PSA"
     ],
-    "PROV": [
+    "PR": [
       20,
       "PRO"
     ],
-    "ECCL": [
+    "EC": [
       21,
       "ECC"
     ],
-    "SONG": [
+    "SO": [
       22,
       "SNG"
     ],
-    "ISA": [
+    "IS": [
       23,
       "ISA"
     ],
-    "JER": [
+    "JE": [
       24,
       "JER"
     ],
-    "LAM": [
+    "LA": [
       25,
       "LAM"
     ],
-    "EZEK": [
+    "EZE": [
       26,
       "EZE"
     ],
-    "DAN": [
+    "DA": [
       27,
       "DAN"
     ],
-    "HOS": [
+    "HO": [
       28,
       "HOS"
     ],
-    "JOEL": [
+    "JOL": [
       29,
       "JOL"
     ],
-    "AMOS": [
+    "AM": [
       30,
       "AMO"
     ],
-    "OBAD": [
+    "OB": [
       31,
       "OBA"
     ],
-    "JONAH": [
+    "JON": [
       32,
       "JNA"
     ],
-    "NIC": [
+    "MI": [
       33,
       "MIC"
     ],
-    "NAH": [
+    "NA": [
       34,
       "NAH"
     ],
@@ -9788,7 +13115,7 @@
       35,
       "HAB"
     ],
-    "ZEPH": [
+    "ZEP": [
       36,
       "ZEP"
     ],
@@ -9796,7 +13123,7 @@
       37,
       "HAG"
     ],
-    "ZECH": [
+    "ZEC": [
       38,
       "ZEC"
     ],
@@ -9804,39 +13131,39 @@
       39,
       "MAL"
     ],
-    "MATT": [
+    "MT": [
       40,
       "MAT"
     ],
-    "MARK": [
+    "MK": [
       41,
       "MRK"
     ],
-    "LUKE": [
+    "LK": [
       42,
       "LUK"
     ],
-    "JOHN": [
+    "JN": [
       43,
       "JHN"
     ],
-    "ACTS": [
+    "AC": [
       44,
       "ACT"
     ],
-    "ROM": [
+    "RO": [
       45,
       "ROM"
     ],
-    "1 COR": [
+    "1CO": [
       46,
       "CO1"
     ],
-    "2 COR": [
+    "2CO": [
       47,
       "CO2"
     ],
-    "GAL": [
+    "GA": [
       48,
       "GAL"
     ],
@@ -9844,7 +13171,7 @@
       49,
       "EPH"
     ],
-    "PHIL": [
+    "PHP": [
       50,
       "PHP"
     ],
@@ -9852,27 +13179,27 @@
       51,
       "COL"
     ],
-    "1 THESS": [
+    "1TH": [
       52,
       "TH1"
     ],
-    "2 THESS": [
+    "2TH": [
       53,
       "TH2"
     ],
-    "1 TIM": [
+    "1TI": [
       54,
       "TI1"
     ],
-    "2 TIM": [
+    "2TI": [
       55,
       "TI2"
     ],
-    "TITUS": [
+    "TIT": [
       56,
       "TIT"
     ],
-    "PHLM": [
+    "PHM": [
       57,
       "PHM"
     ],
@@ -9884,50 +13211,34 @@
       59,
       "JAM"
     ],
-    "1 PET": [
+    "1PE": [
       60,
       "PE1"
     ],
-    "2 PET": [
+    "2PE": [
       61,
       "PE2"
     ],
-    "1 JOHN": [
+    "1JN": [
       62,
       "JN1"
     ],
-    "2 JOHN": [
+    "2JN": [
       63,
       "JN2"
     ],
-    "3 JOHN": [
+    "3JN": [
       64,
       "JN3"
     ],
-    "JUDE": [
+    "JUD": [
       65,
       "JDE"
     ],
-    "REV": [
+    "RE": [
       66,
       "REV"
     ],
-    "ADD ESTH": [
-      72,
-      [
-        "ESG",
-        "ESA",
-        "ESC"
-      ]
-    ],
-    "ADD DAN": [
-      75,
-      [
-        "DNG",
-        "DNA",
-        "DNC"
-      ]
-    ],
     "BEL": [
       80,
       "BEL"
@@ -9940,10 +13251,6 @@
       82,
       "JDT"
     ],
-    "PR MAN": [
-      83,
-      "MAN"
-    ],
     "SIR": [
       84,
       "SIR"
@@ -9956,59 +13263,60 @@
       87,
       "WIS"
     ],
-    "PR AZAR": [
+    "AZ": [
       88,
       "PAZ"
     ],
-    "1 ESD": [
-      90,
-      "GES"
-    ],
-    "2 ESD": [
-      91,
-      "LES"
-    ],
-    "4 EZRA": [
-      92,
-      "EZA"
-    ],
-    "5 EZRA": [
-      93,
-      "EZ5"
-    ],
-    "6 EZRA": [
-      94,
-      "EZ6"
-    ],
-    "EP JER": [
-      102,
-      [
-        "LJE",
-        "LJB"
-      ]
+    "LJE": [
+      100,
+      "LJE"
     ],
     "BAR": [
       101,
       "BAR"
     ],
-    "1 MACC": [
+    "1MA": [
       111,
       "MA1"
     ],
-    "2 MACC": [
+    "2MA": [
       112,
       "MA2"
     ],
-    "3 MACC": [
+    "3MA": [
       113,
       "MA3"
     ],
-    "4 MACC": [
+    "4MA": [
       114,
       "MA4"
+    ],
+    "5MA": [
+      115,
+      "MA5"
+    ],
+    "DIO": [
+      300,
+      "DIO"
+    ],
+    "MOS": [
+      600,
+      "MOS"
+    ],
+    "SAM": [
+      605,
+      "SAM"
+    ],
+    "KI": [
+      610,
+      "KGS"
+    ],
+    "CHR": [
+      620,
+      "CHR"
     ]
   },
-  "OSISAbbreviationDict": {
+  "SBLAbbreviationDict": {
     "GEN": [
       1,
       "GEN"
@@ -10041,32 +13349,32 @@
       8,
       "RUT"
     ],
-    "1SAM": [
+    "1 SAM": [
       9,
       "SA1"
     ],
-    "2SAM": [
+    "2 SAM": [
       10,
       "SA2"
     ],
-    "1KGS": [
+    "1 KGS": [
       11,
       "KI1"
     ],
-    "2KGS": [
+    "2 KGS": [
       12,
       "KI2"
     ],
-    "1CHR": [
+    "1 CHR": [
       13,
       "CH1"
     ],
-    "2CHR": [
+    "2 CHR": [
       14,
       "CH2"
     ],
     "EZRA": [
-      640,
+      625,
       [
         "EZR",
         "EZN"
@@ -10192,11 +13500,11 @@
       45,
       "ROM"
     ],
-    "1COR": [
+    "1 COR": [
       46,
       "CO1"
     ],
-    "2COR": [
+    "2 COR": [
       47,
       "CO2"
     ],
@@ -10216,19 +13524,19 @@
       51,
       "COL"
     ],
-    "1THESS": [
+    "1 THESS": [
       52,
       "TH1"
     ],
-    "2THESS": [
+    "2 THESS": [
       53,
       "TH2"
     ],
-    "1TIM": [
+    "1 TIM": [
       54,
       "TI1"
     ],
-    "2TIM": [
+    "2 TIM": [
       55,
       "TI2"
     ],
@@ -10248,23 +13556,23 @@
       59,
       "JAM"
     ],
-    "1PET": [
+    "1 PET": [
       60,
       "PE1"
     ],
-    "2PET": [
+    "2 PET": [
       61,
       "PE2"
     ],
-    "1JOHN": [
+    "1 JOHN": [
       62,
       "JN1"
     ],
-    "2JOHN": [
+    "2 JOHN": [
       63,
       "JN2"
     ],
-    "3JOHN": [
+    "3 JOHN": [
       64,
       "JN3"
     ],
@@ -10276,18 +13584,15 @@
       66,
       "REV"
     ],
-    "ESTHGR": [
-      70,
-      "ESG"
-    ],
-    "ADDESTH": [
+    "ADD ESTH": [
       72,
       [
+        "ESG",
         "ESA",
         "ESC"
       ]
     ],
-    "ADDDAN": [
+    "ADD DAN": [
       75,
       [
         "DNG",
@@ -10307,7 +13612,7 @@
       82,
       "JDT"
     ],
-    "PRMAN": [
+    "PR MAN": [
       83,
       "MAN"
     ],
@@ -10315,10 +13620,6 @@
       84,
       "SIR"
     ],
-    "SIRP": [
-      85,
-      "SIP"
-    ],
     "TOB": [
       86,
       "TOB"
@@ -10327,27 +13628,31 @@
       87,
       "WIS"
     ],
-    "PRAZAR": [
+    "PR AZAR": [
       88,
       "PAZ"
     ],
-    "1ESD": [
+    "1 ESD": [
       90,
       "GES"
     ],
-    "2ESD": [
+    "2 ESD": [
       91,
       "LES"
     ],
-    "REVEZRA": [
-      95,
-      "RVE"
+    "4 EZRA": [
+      92,
+      "EZA"
     ],
-    "VISEZRA": [
-      96,
-      "VSE"
+    "5 EZRA": [
+      93,
+      "EZ5"
     ],
-    "EPJER": [
+    "6 EZRA": [
+      94,
+      "EZ6"
+    ],
+    "EP JER": [
       102,
       [
         "LJE",
@@ -10358,43 +13663,27 @@
       101,
       "BAR"
     ],
-    "3BAR": [
-      106,
-      "BA3"
-    ],
-    "1MACC": [
+    "1 MACC": [
       111,
       "MA1"
     ],
-    "2MACC": [
+    "2 MACC": [
       112,
       "MA2"
     ],
-    "3MACC": [
+    "3 MACC": [
       113,
       "MA3"
     ],
-    "4MACC": [
+    "4 MACC": [
       114,
       "MA4"
-    ],
-    "5MACC": [
-      115,
-      "MA5"
-    ],
-    "ADDPS": [
-      126,
-      "PS2"
-    ],
-    "2EN": [
-      142,
-      "EN2"
-    ]
-  },
-  "SwordAbbreviationDict": {
-    "GEN": [
-      1,
-      "GEN"
+    ]
+  },
+  "OSISAbbreviationDict": {
+    "GEN": [
+      1,
+      "GEN"
     ],
     "EXOD": [
       2,
@@ -10449,7 +13738,7 @@
       "CH2"
     ],
     "EZRA": [
-      640,
+      625,
       [
         "EZR",
         "EZN"
@@ -10670,13 +13959,10 @@
         "ESC"
       ]
     ],
-    "DANGR": [
-      73,
-      "DNG"
-    ],
     "ADDDAN": [
       75,
       [
+        "DNG",
         "DNA",
         "DNC"
       ]
@@ -10725,18 +14011,6 @@
       91,
       "LES"
     ],
-    "4EZRA": [
-      92,
-      "EZA"
-    ],
-    "5EZRA": [
-      93,
-      "EZ5"
-    ],
-    "6EZRA": [
-      94,
-      "EZ6"
-    ],
     "REVEZRA": [
       95,
       "RVE"
@@ -10756,30 +14030,10 @@
       101,
       "BAR"
     ],
-    "2BAR": [
-      103,
-      "BA2"
-    ],
-    "EPBAR": [
-      104,
-      "LBA"
-    ],
     "3BAR": [
       106,
       "BA3"
     ],
-    "4BAR": [
-      107,
-      "BA4"
-    ],
-    "ADDJER": [
-      108,
-      "JRA"
-    ],
-    "PSJOS": [
-      109,
-      "PSJ"
-    ],
     "1MACC": [
       111,
       "MA1"
@@ -10800,3288 +14054,4636 @@
       115,
       "MA5"
     ],
-    "1MEQ": [
-      116,
-      "MQ1"
-    ],
-    "2MEQ": [
-      117,
-      "MQ2"
-    ],
-    "3MEQ": [
-      118,
-      "MQ3"
-    ],
-    "PSMET": [
-      125,
-      "PSB"
-    ],
     "ADDPS": [
       126,
       "PS2"
     ],
-    "5APOCSYRPSS": [
-      127,
-      "PS3"
+    "2EN": [
+      142,
+      "EN2"
+    ]
+  },
+  "SwordAbbreviationDict": {
+    "GEN": [
+      1,
+      "GEN"
     ],
-    "PSSSOL": [
-      128,
-      "PSS"
+    "EXOD": [
+      2,
+      "EXO"
     ],
-    "EPLAO": [
-      130,
-      "LAO"
+    "LEV": [
+      3,
+      "LEV"
     ],
-    "ODES": [
-      131,
-      "ODE"
+    "NUM": [
+      4,
+      "NUM"
     ],
-    "PRSOL": [
-      132,
-      "PSO"
+    "DEUT": [
+      5,
+      "DEU"
     ],
-    "PRJER": [
-      133,
-      "PJE"
+    "JOSH": [
+      6,
+      "JOS"
     ],
-    "WSIR": [
-      134,
-      "WSI"
+    "JUDG": [
+      7,
+      "JDG"
     ],
-    "EPCORPAUL": [
-      135,
-      "COP"
+    "RUTH": [
+      8,
+      "RUT"
     ],
-    "3COR": [
-      136,
-      "CO3"
+    "1SAM": [
+      9,
+      "SA1"
     ],
-    "PREUTH": [
-      137,
-      "EUT"
+    "2SAM": [
+      10,
+      "SA2"
     ],
-    "DORMJOHN": [
-      138,
-      "DOJ"
+    "1KGS": [
+      11,
+      "KI1"
     ],
-    "JUB": [
-      140,
-      "JUB"
+    "2KGS": [
+      12,
+      "KI2"
     ],
-    "1EN": [
-      141,
-      "ENO"
+    "1CHR": [
+      13,
+      "CH1"
     ],
-    "2EN": [
-      142,
-      "EN2"
+    "2CHR": [
+      14,
+      "CH2"
     ],
-    "REP": [
-      143,
-      "REP"
+    "EZRA": [
+      625,
+      [
+        "EZR",
+        "EZN"
+      ]
     ],
-    "BARN": [
-      144,
-      "LBB"
+    "NEH": [
+      16,
+      "NEH"
     ],
-    "1CLEM": [
-      150,
-      "CL1"
+    "ESTH": [
+      17,
+      "EST"
     ],
-    "2CLEM": [
-      151,
-      "CL2"
+    "JOB": [
+      18,
+      "JOB"
     ],
-    "DID": [
-      153,
-      "DID"
+    "PS": [
+      19,
+      "PSA"
     ],
-    "JOSHA": [
-      154,
-      "JSA"
+    "PROV": [
+      20,
+      "PRO"
     ],
-    "JUDGB": [
-      155,
-      "JGB"
+    "ECCL": [
+      21,
+      "ECC"
     ],
-    "TOBS": [
-      156,
-      "TBS"
+    "SONG": [
+      22,
+      "SNG"
     ],
-    "SUSTH": [
-      157,
-      "SST"
+    "ISA": [
+      23,
+      "ISA"
     ],
-    "DANTH": [
-      158,
-      "DNT"
+    "JER": [
+      24,
+      "JER"
     ],
-    "BELTH": [
-      159,
-      "BLT"
+    "LAM": [
+      25,
+      "LAM"
     ],
-    "T12PATR": [
-      250,
-      "TTP"
+    "EZEK": [
+      26,
+      "EZE"
     ],
-    "T12PATR.TASH": [
-      251,
-      "TSA"
+    "DAN": [
+      27,
+      "DAN"
     ],
-    "T12PATR.TBENJ": [
-      252,
-      "TSB"
+    "HOS": [
+      28,
+      "HOS"
     ],
-    "T12PATR.TDAN": [
-      253,
-      "TSD"
+    "JOEL": [
+      29,
+      "JOL"
     ],
-    "T12PATR.TGAD": [
-      254,
-      "TSG"
-    ],
-    "T12PATR.TISS": [
-      255,
-      "TSI"
-    ],
-    "T12PATR.TJOS": [
-      256,
-      "TSJ"
-    ],
-    "T12PATR.TJUD": [
-      257,
-      "TSY"
-    ],
-    "T12PATR.TLEVI": [
-      258,
-      "TSL"
-    ],
-    "T12PATR.TNAPH": [
-      259,
-      "TSN"
-    ],
-    "T12PATR.TREU": [
-      260,
-      "TSR"
-    ],
-    "T12PATR.TSIM": [
-      261,
-      "TSS"
-    ],
-    "T12PATR.TZEB": [
-      262,
-      "TSZ"
-    ],
-    "JOSEPHUSJWVI": [
-      270,
-      "JJW"
-    ],
-    "HERM": [
-      283,
-      [
-        "SHE",
-        "SHM",
-        "SHS",
-        "SHV"
-      ]
-    ],
-    "IGNEPH": [
-      290,
-      "IGE"
-    ],
-    "IGNMAGN": [
-      291,
-      "IGM"
-    ],
-    "IGNTRALL": [
-      292,
-      "IGT"
-    ],
-    "IGNROM": [
-      293,
-      "IGR"
-    ],
-    "IGNPHLD": [
-      294,
-      "IGP"
-    ],
-    "IGNSMYRN": [
-      295,
-      "IGS"
-    ],
-    "IGNPOL": [
-      296,
-      "IGC"
-    ],
-    "POLPHIL": [
-      297,
-      "PCP"
-    ],
-    "MARTPOL": [
-      298,
-      "MPC"
-    ],
-    "DIOGN": [
-      300,
-      "DIO"
-    ],
-    "APOSCREED": [
-      301,
-      "APC"
-    ],
-    "PAPFRAG": [
-      302,
-      "FOP"
-    ],
-    "RELELDERS": [
-      303,
-      "ROE"
-    ],
-    "QUADFRAG": [
-      304,
-      "FOQ"
-    ],
-    "TATDIAT": [
-      310,
-      "TAT"
-    ]
-  },
-  "CCELDict": {
-    "1": [
-      1,
-      "GEN"
-    ],
-    "2": [
-      2,
-      "EXO"
-    ],
-    "3": [
-      3,
-      "LEV"
-    ],
-    "4": [
-      4,
-      "NUM"
-    ],
-    "5": [
-      5,
-      "DEU"
-    ],
-    "6": [
-      6,
-      "JOS"
-    ],
-    "7": [
-      7,
-      "JDG"
-    ],
-    "8": [
-      8,
-      "RUT"
-    ],
-    "9": [
-      9,
-      "SA1"
-    ],
-    "10": [
-      10,
-      "SA2"
-    ],
-    "11": [
-      11,
-      "KI1"
-    ],
-    "12": [
-      12,
-      "KI2"
-    ],
-    "13": [
-      13,
-      "CH1"
-    ],
-    "14": [
-      14,
-      "CH2"
-    ],
-    "15": [
-      15,
-      "EZR"
-    ],
-    "16": [
-      16,
-      "NEH"
-    ],
-    "17": [
-      17,
-      "EST"
-    ],
-    "18": [
-      18,
-      "JOB"
-    ],
-    "19": [
-      19,
-      "PSA"
-    ],
-    "20": [
-      20,
-      "PRO"
-    ],
-    "21": [
-      21,
-      "ECC"
-    ],
-    "22": [
-      22,
-      "SNG"
-    ],
-    "23": [
-      23,
-      "ISA"
-    ],
-    "24": [
-      24,
-      "JER"
-    ],
-    "25": [
-      25,
-      "LAM"
-    ],
-    "26": [
-      26,
-      "EZE"
-    ],
-    "27": [
-      27,
-      "DAN"
-    ],
-    "28": [
-      28,
-      "HOS"
-    ],
-    "29": [
-      29,
-      "JOL"
-    ],
-    "30": [
+    "AMOS": [
       30,
       "AMO"
     ],
-    "31": [
+    "OBAD": [
       31,
       "OBA"
     ],
-    "32": [
+    "JONAH": [
       32,
       "JNA"
     ],
-    "33": [
+    "MIC": [
       33,
       "MIC"
     ],
-    "34": [
+    "NAH": [
       34,
       "NAH"
     ],
-    "35": [
+    "HAB": [
       35,
       "HAB"
     ],
-    "36": [
+    "ZEPH": [
       36,
       "ZEP"
     ],
-    "37": [
+    "HAG": [
       37,
       "HAG"
     ],
-    "38": [
+    "ZECH": [
       38,
       "ZEC"
     ],
-    "39": [
+    "MAL": [
       39,
       "MAL"
     ],
-    "40": [
+    "MATT": [
       40,
       "MAT"
     ],
-    "41": [
+    "MARK": [
       41,
       "MRK"
     ],
-    "42": [
+    "LUKE": [
       42,
       "LUK"
     ],
-    "43": [
+    "JOHN": [
       43,
       "JHN"
     ],
-    "44": [
+    "ACTS": [
       44,
       "ACT"
     ],
-    "45": [
+    "ROM": [
       45,
       "ROM"
     ],
-    "46": [
+    "1COR": [
       46,
       "CO1"
     ],
-    "47": [
+    "2COR": [
       47,
       "CO2"
     ],
-    "48": [
+    "GAL": [
       48,
       "GAL"
     ],
-    "49": [
+    "EPH": [
       49,
       "EPH"
     ],
-    "50": [
+    "PHIL": [
       50,
       "PHP"
     ],
-    "51": [
+    "COL": [
       51,
       "COL"
     ],
-    "52": [
+    "1THESS": [
       52,
       "TH1"
     ],
-    "53": [
+    "2THESS": [
       53,
       "TH2"
     ],
-    "54": [
+    "1TIM": [
       54,
       "TI1"
     ],
-    "55": [
+    "2TIM": [
       55,
       "TI2"
     ],
-    "56": [
+    "TITUS": [
       56,
       "TIT"
     ],
-    "57": [
+    "PHLM": [
       57,
       "PHM"
     ],
-    "58": [
+    "HEB": [
       58,
       "HEB"
     ],
-    "59": [
-      59,
-      "JAM"
+    "JAS": [
+      59,
+      "JAM"
+    ],
+    "1PET": [
+      60,
+      "PE1"
+    ],
+    "2PET": [
+      61,
+      "PE2"
+    ],
+    "1JOHN": [
+      62,
+      "JN1"
+    ],
+    "2JOHN": [
+      63,
+      "JN2"
+    ],
+    "3JOHN": [
+      64,
+      "JN3"
+    ],
+    "JUDE": [
+      65,
+      "JDE"
+    ],
+    "REV": [
+      66,
+      "REV"
+    ],
+    "ESTHGR": [
+      70,
+      "ESG"
+    ],
+    "ADDESTH": [
+      72,
+      [
+        "ESA",
+        "ESC"
+      ]
+    ],
+    "DANGR": [
+      73,
+      "DNG"
+    ],
+    "ADDDAN": [
+      75,
+      [
+        "DNA",
+        "DNC"
+      ]
+    ],
+    "BEL": [
+      80,
+      "BEL"
+    ],
+    "SUS": [
+      81,
+      "SUS"
+    ],
+    "JDT": [
+      82,
+      "JDT"
+    ],
+    "PRMAN": [
+      83,
+      "MAN"
+    ],
+    "SIR": [
+      84,
+      "SIR"
+    ],
+    "SIRP": [
+      85,
+      "SIP"
+    ],
+    "TOB": [
+      86,
+      "TOB"
+    ],
+    "WIS": [
+      87,
+      "WIS"
+    ],
+    "PRAZAR": [
+      88,
+      "PAZ"
+    ],
+    "1ESD": [
+      90,
+      "GES"
+    ],
+    "2ESD": [
+      91,
+      "LES"
+    ],
+    "4EZRA": [
+      92,
+      "EZA"
+    ],
+    "5EZRA": [
+      93,
+      "EZ5"
+    ],
+    "6EZRA": [
+      94,
+      "EZ6"
+    ],
+    "REVEZRA": [
+      95,
+      "RVE"
+    ],
+    "VISEZRA": [
+      96,
+      "VSE"
+    ],
+    "EPJER": [
+      102,
+      [
+        "LJE",
+        "LJB"
+      ]
+    ],
+    "BAR": [
+      101,
+      "BAR"
+    ],
+    "2BAR": [
+      103,
+      "BA2"
+    ],
+    "EPBAR": [
+      104,
+      "LBA"
+    ],
+    "3BAR": [
+      106,
+      "BA3"
+    ],
+    "4BAR": [
+      107,
+      "BA4"
+    ],
+    "ADDJER": [
+      108,
+      "JRA"
+    ],
+    "PSJOS": [
+      109,
+      "PSJ"
+    ],
+    "1MACC": [
+      111,
+      "MA1"
+    ],
+    "2MACC": [
+      112,
+      "MA2"
+    ],
+    "3MACC": [
+      113,
+      "MA3"
+    ],
+    "4MACC": [
+      114,
+      "MA4"
+    ],
+    "5MACC": [
+      115,
+      "MA5"
+    ],
+    "1MEQ": [
+      116,
+      "MQ1"
+    ],
+    "2MEQ": [
+      117,
+      "MQ2"
+    ],
+    "3MEQ": [
+      118,
+      "MQ3"
+    ],
+    "PSMET": [
+      125,
+      "PSB"
+    ],
+    "ADDPS": [
+      126,
+      "PS2"
+    ],
+    "5APOCSYRPSS": [
+      127,
+      "PS3"
+    ],
+    "PSSSOL": [
+      128,
+      "PSS"
+    ],
+    "EPLAO": [
+      130,
+      "LAO"
+    ],
+    "ODES": [
+      131,
+      "ODE"
+    ],
+    "PRSOL": [
+      132,
+      "PSO"
+    ],
+    "PRJER": [
+      133,
+      "PJE"
+    ],
+    "WSIR": [
+      134,
+      "WSI"
+    ],
+    "EPCORPAUL": [
+      135,
+      "COP"
+    ],
+    "3COR": [
+      136,
+      "CO3"
+    ],
+    "PREUTH": [
+      137,
+      "EUT"
+    ],
+    "DORMJOHN": [
+      138,
+      "DOJ"
+    ],
+    "JUB": [
+      140,
+      "JUB"
+    ],
+    "1EN": [
+      141,
+      "ENO"
+    ],
+    "2EN": [
+      142,
+      "EN2"
+    ],
+    "REP": [
+      143,
+      "REP"
+    ],
+    "BARN": [
+      144,
+      "LBB"
+    ],
+    "1CLEM": [
+      150,
+      "CL1"
+    ],
+    "2CLEM": [
+      151,
+      "CL2"
+    ],
+    "DID": [
+      153,
+      "DID"
+    ],
+    "JOSHA": [
+      154,
+      "JSA"
+    ],
+    "JOSHB": [
+      155,
+      "JSB"
+    ],
+    "JUDGA": [
+      156,
+      "JGA"
+    ],
+    "JUDGB": [
+      157,
+      "JGB"
+    ],
+    "TOBS": [
+      158,
+      "TBS"
+    ],
+    "SUSTH": [
+      159,
+      "SST"
+    ],
+    "DANTH": [
+      160,
+      "DNT"
+    ],
+    "BELTH": [
+      161,
+      "BLT"
+    ],
+    "T12PATR": [
+      250,
+      "TTP"
+    ],
+    "T12PATR.TASH": [
+      251,
+      "TSA"
+    ],
+    "T12PATR.TBENJ": [
+      252,
+      "TSB"
+    ],
+    "T12PATR.TDAN": [
+      253,
+      "TSD"
+    ],
+    "T12PATR.TGAD": [
+      254,
+      "TSG"
+    ],
+    "T12PATR.TISS": [
+      255,
+      "TSI"
+    ],
+    "T12PATR.TJOS": [
+      256,
+      "TSJ"
+    ],
+    "T12PATR.TJUD": [
+      257,
+      "TSY"
+    ],
+    "T12PATR.TLEVI": [
+      258,
+      "TSL"
+    ],
+    "T12PATR.TNAPH": [
+      259,
+      "TSN"
+    ],
+    "T12PATR.TREU": [
+      260,
+      "TSR"
+    ],
+    "T12PATR.TSIM": [
+      261,
+      "TSS"
+    ],
+    "T12PATR.TZEB": [
+      262,
+      "TSZ"
+    ],
+    "JOSEPHUSJWVI": [
+      270,
+      "JJW"
+    ],
+    "HERM": [
+      283,
+      [
+        "SHE",
+        "SHM",
+        "SHS",
+        "SHV"
+      ]
+    ],
+    "IGNEPH": [
+      290,
+      "IGE"
+    ],
+    "IGNMAGN": [
+      291,
+      "IGM"
+    ],
+    "IGNTRALL": [
+      292,
+      "IGT"
+    ],
+    "IGNROM": [
+      293,
+      "IGR"
+    ],
+    "IGNPHLD": [
+      294,
+      "IGP"
+    ],
+    "IGNSMYRN": [
+      295,
+      "IGS"
+    ],
+    "IGNPOL": [
+      296,
+      "IGC"
+    ],
+    "POLPHIL": [
+      297,
+      "PCP"
+    ],
+    "MARTPOL": [
+      298,
+      "MPC"
+    ],
+    "DIOGN": [
+      300,
+      "DIO"
+    ],
+    "APOSCREED": [
+      301,
+      "APC"
+    ],
+    "PAPFRAG": [
+      302,
+      "FOP"
+    ],
+    "RELELDERS": [
+      303,
+      "ROE"
+    ],
+    "QUADFRAG": [
+      304,
+      "FOQ"
+    ],
+    "TATDIAT": [
+      310,
+      "TAT"
+    ]
+  },
+  "CCELDict": {
+    "1": [
+      1,
+      "GEN"
+    ],
+    "2": [
+      2,
+      "EXO"
+    ],
+    "3": [
+      3,
+      "LEV"
+    ],
+    "4": [
+      4,
+      "NUM"
+    ],
+    "5": [
+      5,
+      "DEU"
+    ],
+    "6": [
+      6,
+      "JOS"
+    ],
+    "7": [
+      7,
+      "JDG"
+    ],
+    "8": [
+      8,
+      "RUT"
+    ],
+    "9": [
+      9,
+      "SA1"
+    ],
+    "10": [
+      10,
+      "SA2"
+    ],
+    "11": [
+      11,
+      "KI1"
+    ],
+    "12": [
+      12,
+      "KI2"
+    ],
+    "13": [
+      13,
+      "CH1"
+    ],
+    "14": [
+      14,
+      "CH2"
+    ],
+    "15": [
+      15,
+      "EZR"
+    ],
+    "16": [
+      16,
+      "NEH"
+    ],
+    "17": [
+      17,
+      "EST"
+    ],
+    "18": [
+      18,
+      "JOB"
+    ],
+    "19": [
+      19,
+      "PSA"
+    ],
+    "20": [
+      20,
+      "PRO"
+    ],
+    "21": [
+      21,
+      "ECC"
+    ],
+    "22": [
+      22,
+      "SNG"
+    ],
+    "23": [
+      23,
+      "ISA"
+    ],
+    "24": [
+      24,
+      "JER"
+    ],
+    "25": [
+      25,
+      "LAM"
+    ],
+    "26": [
+      26,
+      "EZE"
+    ],
+    "27": [
+      27,
+      "DAN"
+    ],
+    "28": [
+      28,
+      "HOS"
+    ],
+    "29": [
+      29,
+      "JOL"
+    ],
+    "30": [
+      30,
+      "AMO"
+    ],
+    "31": [
+      31,
+      "OBA"
+    ],
+    "32": [
+      32,
+      "JNA"
+    ],
+    "33": [
+      33,
+      "MIC"
+    ],
+    "34": [
+      34,
+      "NAH"
+    ],
+    "35": [
+      35,
+      "HAB"
+    ],
+    "36": [
+      36,
+      "ZEP"
+    ],
+    "37": [
+      37,
+      "HAG"
+    ],
+    "38": [
+      38,
+      "ZEC"
+    ],
+    "39": [
+      39,
+      "MAL"
+    ],
+    "40": [
+      40,
+      "MAT"
+    ],
+    "41": [
+      41,
+      "MRK"
+    ],
+    "42": [
+      42,
+      "LUK"
+    ],
+    "43": [
+      43,
+      "JHN"
+    ],
+    "44": [
+      44,
+      "ACT"
+    ],
+    "45": [
+      45,
+      "ROM"
+    ],
+    "46": [
+      46,
+      "CO1"
+    ],
+    "47": [
+      47,
+      "CO2"
+    ],
+    "48": [
+      48,
+      "GAL"
+    ],
+    "49": [
+      49,
+      "EPH"
+    ],
+    "50": [
+      50,
+      "PHP"
+    ],
+    "51": [
+      51,
+      "COL"
+    ],
+    "52": [
+      52,
+      "TH1"
+    ],
+    "53": [
+      53,
+      "TH2"
+    ],
+    "54": [
+      54,
+      "TI1"
+    ],
+    "55": [
+      55,
+      "TI2"
+    ],
+    "56": [
+      56,
+      "TIT"
+    ],
+    "57": [
+      57,
+      "PHM"
+    ],
+    "58": [
+      58,
+      "HEB"
+    ],
+    "59": [
+      59,
+      "JAM"
+    ],
+    "60": [
+      60,
+      "PE1"
+    ],
+    "61": [
+      61,
+      "PE2"
+    ],
+    "62": [
+      62,
+      "JN1"
+    ],
+    "63": [
+      63,
+      "JN2"
+    ],
+    "64": [
+      64,
+      "JN3"
+    ],
+    "65": [
+      65,
+      "JDE"
+    ],
+    "66": [
+      66,
+      "REV"
+    ],
+    "95": [
+      72,
+      [
+        "ESG",
+        "ESA",
+        "ESC"
+      ]
+    ],
+    "78": [
+      80,
+      "BEL"
+    ],
+    "77": [
+      81,
+      "SUS"
+    ],
+    "70": [
+      82,
+      "JDT"
+    ],
+    "82": [
+      83,
+      "MAN"
+    ],
+    "94": [
+      84,
+      "SIR"
+    ],
+    "69": [
+      86,
+      "TOB"
+    ],
+    "72": [
+      87,
+      "WIS"
+    ],
+    "76": [
+      88,
+      "PAZ"
+    ],
+    "81": [
+      90,
+      "GES"
+    ],
+    "83": [
+      91,
+      "LES"
+    ],
+    "75": [
+      100,
+      "LJE"
+    ],
+    "74": [
+      101,
+      "BAR"
+    ],
+    "79": [
+      111,
+      "MA1"
+    ],
+    "80": [
+      112,
+      "MA2"
+    ],
+    "84": [
+      113,
+      "MA3"
+    ],
+    "85": [
+      114,
+      "MA4"
+    ],
+    "86": [
+      126,
+      "PS2"
+    ]
+  },
+  "USFMAbbreviationDict": {
+    "GEN": [
+      1,
+      "GEN",
+      "01"
+    ],
+    "EXO": [
+      2,
+      "EXO",
+      "02"
+    ],
+    "LEV": [
+      3,
+      "LEV",
+      "03"
+    ],
+    "NUM": [
+      4,
+      "NUM",
+      "04"
+    ],
+    "DEU": [
+      5,
+      "DEU",
+      "05"
+    ],
+    "JOS": [
+      6,
+      "JOS",
+      "06"
+    ],
+    "JDG": [
+      7,
+      "JDG",
+      "07"
+    ],
+    "RUT": [
+      8,
+      "RUT",
+      "08"
+    ],
+    "1SA": [
+      9,
+      "SA1",
+      "09"
+    ],
+    "2SA": [
+      10,
+      "SA2",
+      "10"
+    ],
+    "1KI": [
+      11,
+      "KI1",
+      "11"
+    ],
+    "2KI": [
+      12,
+      "KI2",
+      "12"
+    ],
+    "1CH": [
+      13,
+      "CH1",
+      "13"
+    ],
+    "2CH": [
+      14,
+      "CH2",
+      "14"
+    ],
+    "EZR": [
+      625,
+      [
+        "EZR",
+        "EZN"
+      ],
+      [
+        "15",
+        "15"
+      ]
+    ],
+    "NEH": [
+      16,
+      "NEH",
+      "16"
+    ],
+    "EST": [
+      17,
+      "EST",
+      "17"
+    ],
+    "JOB": [
+      18,
+      "JOB",
+      "18"
+    ],
+    "PSA": [
+      19,
+      "PSA",
+      "19"
+    ],
+    "PRO": [
+      20,
+      "PRO",
+      "20"
+    ],
+    "ECC": [
+      21,
+      "ECC",
+      "21"
+    ],
+    "SNG": [
+      22,
+      "SNG",
+      "22"
+    ],
+    "ISA": [
+      23,
+      "ISA",
+      "23"
+    ],
+    "JER": [
+      24,
+      "JER",
+      "24"
+    ],
+    "LAM": [
+      25,
+      "LAM",
+      "25"
+    ],
+    "EZK": [
+      26,
+      "EZE",
+      "26"
+    ],
+    "DAN": [
+      27,
+      "DAN",
+      "27"
+    ],
+    "HOS": [
+      28,
+      "HOS",
+      "28"
+    ],
+    "JOL": [
+      29,
+      "JOL",
+      "29"
+    ],
+    "AMO": [
+      30,
+      "AMO",
+      "30"
+    ],
+    "OBA": [
+      31,
+      "OBA",
+      "31"
+    ],
+    "JON": [
+      32,
+      "JNA",
+      "32"
+    ],
+    "MIC": [
+      33,
+      "MIC",
+      "33"
+    ],
+    "NAM": [
+      34,
+      "NAH",
+      "34"
+    ],
+    "HAB": [
+      35,
+      "HAB",
+      "35"
+    ],
+    "ZEP": [
+      36,
+      "ZEP",
+      "36"
+    ],
+    "HAG": [
+      37,
+      "HAG",
+      "37"
+    ],
+    "ZEC": [
+      38,
+      "ZEC",
+      "38"
+    ],
+    "MAL": [
+      39,
+      "MAL",
+      "39"
+    ],
+    "MAT": [
+      40,
+      "MAT",
+      "41"
+    ],
+    "MRK": [
+      41,
+      "MRK",
+      "42"
+    ],
+    "LUK": [
+      42,
+      "LUK",
+      "43"
+    ],
+    "JHN": [
+      43,
+      "JHN",
+      "44"
+    ],
+    "ACT": [
+      44,
+      "ACT",
+      "45"
+    ],
+    "ROM": [
+      45,
+      "ROM",
+      "46"
+    ],
+    "1CO": [
+      46,
+      "CO1",
+      "47"
+    ],
+    "2CO": [
+      47,
+      "CO2",
+      "48"
+    ],
+    "GAL": [
+      48,
+      "GAL",
+      "49"
+    ],
+    "EPH": [
+      49,
+      "EPH",
+      "50"
+    ],
+    "PHP": [
+      50,
+      "PHP",
+      "51"
+    ],
+    "COL": [
+      51,
+      "COL",
+      "52"
+    ],
+    "1TH": [
+      52,
+      "TH1",
+      "53"
+    ],
+    "2TH": [
+      53,
+      "TH2",
+      "54"
+    ],
+    "1TI": [
+      54,
+      "TI1",
+      "55"
+    ],
+    "2TI": [
+      55,
+      "TI2",
+      "56"
+    ],
+    "TIT": [
+      56,
+      "TIT",
+      "57"
+    ],
+    "PHM": [
+      57,
+      "PHM",
+      "58"
+    ],
+    "HEB": [
+      58,
+      "HEB",
+      "59"
+    ],
+    "JAS": [
+      59,
+      "JAM",
+      "60"
+    ],
+    "1PE": [
+      60,
+      "PE1",
+      "61"
+    ],
+    "2PE": [
+      61,
+      "PE2",
+      "62"
+    ],
+    "1JN": [
+      62,
+      "JN1",
+      "63"
+    ],
+    "2JN": [
+      63,
+      "JN2",
+      "64"
+    ],
+    "3JN": [
+      64,
+      "JN3",
+      "65"
+    ],
+    "JUD": [
+      65,
+      "JDE",
+      "66"
+    ],
+    "REV": [
+      66,
+      "REV",
+      "67"
+    ],
+    "ESG": [
+      72,
+      [
+        "ESG",
+        "ESC"
+      ],
+      [
+        "70",
+        "70"
+      ]
+    ],
+    "ADE": [
+      71,
+      "ESA",
+      "70"
+    ],
+    "DAG": [
+      75,
+      [
+        "DNG",
+        "DNA",
+        "DNC"
+      ],
+      [
+        "B2",
+        "B2",
+        "B2"
+      ]
+    ],
+    "BEL": [
+      80,
+      "BEL",
+      "77"
+    ],
+    "SUS": [
+      81,
+      "SUS",
+      "76"
+    ],
+    "JDT": [
+      82,
+      "JDT",
+      "69"
+    ],
+    "MAN": [
+      83,
+      "MAN",
+      "84"
+    ],
+    "SIR": [
+      84,
+      "SIR",
+      "72"
+    ],
+    "TOB": [
+      86,
+      "TOB",
+      "68"
+    ],
+    "WIS": [
+      87,
+      "WIS",
+      "71"
+    ],
+    "S3Y": [
+      88,
+      "PAZ",
+      "75"
+    ],
+    "1ES": [
+      90,
+      "GES",
+      "82"
+    ],
+    "2ES": [
+      91,
+      "LES",
+      "83"
+    ],
+    "EZA": [
+      92,
+      "EZA",
+      "A4"
+    ],
+    "5EZ": [
+      93,
+      "EZ5",
+      "A5"
+    ],
+    "6EZ": [
+      94,
+      "EZ6",
+      "A6"
+    ],
+    "LJE": [
+      102,
+      [
+        "LJE",
+        "LJB"
+      ],
+      [
+        "74",
+        "74"
+      ]
+    ],
+    "BAR": [
+      101,
+      "BAR",
+      "73"
+    ],
+    "2BA": [
+      105,
+      [
+        "BA2",
+        "LB2"
+      ],
+      [
+        "B4",
+        "B4"
+      ]
+    ],
+    "LBA": [
+      104,
+      "LBA",
+      "B5"
+    ],
+    "4BA": [
+      107,
+      "BA4",
+      "C2"
+    ],
+    "1MA": [
+      111,
+      "MA1",
+      "78"
+    ],
+    "2MA": [
+      112,
+      "MA2",
+      "79"
+    ],
+    "3MA": [
+      113,
+      "MA3",
+      "80"
+    ],
+    "4MA": [
+      114,
+      "MA4",
+      "81"
+    ],
+    "1MQ": [
+      116,
+      "MQ1",
+      "B8"
+    ],
+    "2MQ": [
+      117,
+      "MQ2",
+      "B9"
+    ],
+    "3MQ": [
+      118,
+      "MQ3",
+      "C0"
+    ],
+    "PSB": [
+      125,
+      "PSB",
+      "88"
+    ],
+    "PS2": [
+      126,
+      "PS2",
+      "85"
+    ],
+    "PS3": [
+      127,
+      "PS3",
+      "B3"
+    ],
+    "PSS": [
+      128,
+      "PSS",
+      "87"
+    ],
+    "LAO": [
+      130,
+      "LAO",
+      "C3"
+    ],
+    "ODA": [
+      131,
+      "ODE",
+      "86"
+    ],
+    "PSO": [
+      132,
+      "PSO",
+      null
+    ],
+    "PJE": [
+      133,
+      "PJE",
+      null
+    ],
+    "WSI": [
+      134,
+      "WSI",
+      null
+    ],
+    "COP": [
+      135,
+      "COP",
+      null
+    ],
+    "3CO": [
+      136,
+      "CO3",
+      null
+    ],
+    "EUT": [
+      137,
+      "EUT",
+      null
+    ],
+    "DOJ": [
+      138,
+      "DOJ",
+      null
+    ],
+    "JUB": [
+      140,
+      "JUB",
+      "B6"
+    ],
+    "ENO": [
+      141,
+      "ENO",
+      "B7"
+    ],
+    "REP": [
+      143,
+      "REP",
+      "C1"
+    ],
+    "1CL": [
+      150,
+      "CL1",
+      null
+    ],
+    "2CL": [
+      151,
+      "CL2",
+      null
+    ],
+    "DID": [
+      153,
+      "DID",
+      null
+    ],
+    "JSA": [
+      154,
+      "JSA",
+      null
+    ],
+    "JSB": [
+      155,
+      "JSB",
+      null
+    ],
+    "JDA": [
+      156,
+      "JGA",
+      null
+    ],
+    "JDB": [
+      157,
+      "JGB",
+      null
+    ],
+    "TBS": [
+      158,
+      "TBS",
+      null
+    ],
+    "SST": [
+      159,
+      "SST",
+      null
+    ],
+    "DNT": [
+      160,
+      "DNT",
+      null
+    ],
+    "BLT": [
+      161,
+      "BLT",
+      null
+    ],
+    "SHE": [
+      280,
+      "SHE",
+      null
+    ],
+    "FRT": [
+      700,
+      "FRT",
+      "A0"
+    ],
+    "INT": [
+      715,
+      "INT",
+      null
+    ],
+    "GLO": [
+      725,
+      "GLS",
+      "A9"
+    ],
+    "CNC": [
+      730,
+      "CNC",
+      null
+    ],
+    "NDX": [
+      740,
+      "IXN",
+      null
+    ],
+    "TDX": [
+      755,
+      "IXT",
+      null
+    ],
+    "BAK": [
+      760,
+      "BAK",
+      null
+    ],
+    "OTH": [
+      870,
+      "OTH",
+      null
+    ],
+    "XXA": [
+      800,
+      "XXA",
+      "94"
+    ],
+    "XXB": [
+      810,
+      "XXB",
+      "95"
+    ],
+    "XXC": [
+      820,
+      "XXC",
+      "96"
+    ],
+    "XXD": [
+      830,
+      "XXD",
+      "97"
+    ],
+    "XXE": [
+      840,
+      "XXE",
+      "98"
+    ],
+    "XXF": [
+      850,
+      "XXF",
+      "99"
+    ],
+    "XXG": [
+      860,
+      "XXG",
+      null
+    ]
+  },
+  "USFMNumberDict": {
+    "01": [
+      1,
+      "GEN",
+      "Gen"
+    ],
+    "02": [
+      2,
+      "EXO",
+      "Exo"
+    ],
+    "03": [
+      3,
+      "LEV",
+      "Lev"
+    ],
+    "04": [
+      4,
+      "NUM",
+      "Num"
+    ],
+    "05": [
+      5,
+      "DEU",
+      "Deu"
+    ],
+    "06": [
+      6,
+      "JOS",
+      "Jos"
+    ],
+    "07": [
+      7,
+      "JDG",
+      "Jdg"
+    ],
+    "08": [
+      8,
+      "RUT",
+      "Rut"
+    ],
+    "09": [
+      9,
+      "SA1",
+      "1Sa"
+    ],
+    "10": [
+      10,
+      "SA2",
+      "2Sa"
+    ],
+    "11": [
+      11,
+      "KI1",
+      "1Ki"
+    ],
+    "12": [
+      12,
+      "KI2",
+      "2Ki"
+    ],
+    "13": [
+      13,
+      "CH1",
+      "1Ch"
+    ],
+    "14": [
+      14,
+      "CH2",
+      "2Ch"
+    ],
+    "15": [
+      625,
+      [
+        "EZR",
+        "EZN"
+      ],
+      [
+        "Ezr",
+        "Ezr"
+      ]
+    ],
+    "16": [
+      16,
+      "NEH",
+      "Neh"
+    ],
+    "17": [
+      17,
+      "EST",
+      "Est"
+    ],
+    "18": [
+      18,
+      "JOB",
+      "Job"
+    ],
+    "19": [
+      19,
+      "PSA",
+      "Psa"
+    ],
+    "20": [
+      20,
+      "PRO",
+      "Pro"
+    ],
+    "21": [
+      21,
+      "ECC",
+      "Ecc"
+    ],
+    "22": [
+      22,
+      "SNG",
+      "Sng"
+    ],
+    "23": [
+      23,
+      "ISA",
+      "Isa"
+    ],
+    "24": [
+      24,
+      "JER",
+      "Jer"
+    ],
+    "25": [
+      25,
+      "LAM",
+      "Lam"
+    ],
+    "26": [
+      26,
+      "EZE",
+      "Ezk"
+    ],
+    "27": [
+      27,
+      "DAN",
+      "Dan"
+    ],
+    "28": [
+      28,
+      "HOS",
+      "Hos"
+    ],
+    "29": [
+      29,
+      "JOL",
+      "Jol"
+    ],
+    "30": [
+      30,
+      "AMO",
+      "Amo"
+    ],
+    "31": [
+      31,
+      "OBA",
+      "Oba"
+    ],
+    "32": [
+      32,
+      "JNA",
+      "Jon"
+    ],
+    "33": [
+      33,
+      "MIC",
+      "Mic"
+    ],
+    "34": [
+      34,
+      "NAH",
+      "Nam"
+    ],
+    "35": [
+      35,
+      "HAB",
+      "Hab"
+    ],
+    "36": [
+      36,
+      "ZEP",
+      "Zep"
+    ],
+    "37": [
+      37,
+      "HAG",
+      "Hag"
+    ],
+    "38": [
+      38,
+      "ZEC",
+      "Zec"
+    ],
+    "39": [
+      39,
+      "MAL",
+      "Mal"
+    ],
+    "41": [
+      40,
+      "MAT",
+      "Mat"
+    ],
+    "42": [
+      41,
+      "MRK",
+      "Mrk"
+    ],
+    "43": [
+      42,
+      "LUK",
+      "Luk"
+    ],
+    "44": [
+      43,
+      "JHN",
+      "Jhn"
+    ],
+    "45": [
+      44,
+      "ACT",
+      "Act"
+    ],
+    "46": [
+      45,
+      "ROM",
+      "Rom"
+    ],
+    "47": [
+      46,
+      "CO1",
+      "1Co"
+    ],
+    "48": [
+      47,
+      "CO2",
+      "2Co"
+    ],
+    "49": [
+      48,
+      "GAL",
+      "Gal"
+    ],
+    "50": [
+      49,
+      "EPH",
+      "Eph"
+    ],
+    "51": [
+      50,
+      "PHP",
+      "Php"
+    ],
+    "52": [
+      51,
+      "COL",
+      "Col"
+    ],
+    "53": [
+      52,
+      "TH1",
+      "1Th"
+    ],
+    "54": [
+      53,
+      "TH2",
+      "2Th"
+    ],
+    "55": [
+      54,
+      "TI1",
+      "1Ti"
+    ],
+    "56": [
+      55,
+      "TI2",
+      "2Ti"
+    ],
+    "57": [
+      56,
+      "TIT",
+      "Tit"
+    ],
+    "58": [
+      57,
+      "PHM",
+      "Phm"
+    ],
+    "59": [
+      58,
+      "HEB",
+      "Heb"
+    ],
+    "60": [
+      59,
+      "JAM",
+      "Jas"
+    ],
+    "61": [
+      60,
+      "PE1",
+      "1Pe"
+    ],
+    "62": [
+      61,
+      "PE2",
+      "2Pe"
+    ],
+    "63": [
+      62,
+      "JN1",
+      "1Jn"
+    ],
+    "64": [
+      63,
+      "JN2",
+      "2Jn"
+    ],
+    "65": [
+      64,
+      "JN3",
+      "3Jn"
+    ],
+    "66": [
+      65,
+      "JDE",
+      "Jud"
+    ],
+    "67": [
+      66,
+      "REV",
+      "Rev"
+    ],
+    "70": [
+      72,
+      [
+        "ESG",
+        "ESA",
+        "ESC"
+      ],
+      [
+        "EsG",
+        "ADE",
+        "EsG"
+      ]
+    ],
+    "B2": [
+      75,
+      [
+        "DNG",
+        "DNA",
+        "DNC"
+      ],
+      [
+        "DaG",
+        "DaG",
+        "DaG"
+      ]
+    ],
+    "77": [
+      80,
+      "BEL",
+      "Bel"
+    ],
+    "76": [
+      81,
+      "SUS",
+      "Sus"
+    ],
+    "69": [
+      82,
+      "JDT",
+      "Jdt"
+    ],
+    "84": [
+      83,
+      "MAN",
+      "Man"
+    ],
+    "72": [
+      84,
+      "SIR",
+      "Sir"
+    ],
+    "68": [
+      86,
+      "TOB",
+      "Tob"
+    ],
+    "71": [
+      87,
+      "WIS",
+      "Wis"
+    ],
+    "75": [
+      88,
+      "PAZ",
+      "S3Y"
+    ],
+    "82": [
+      90,
+      "GES",
+      "1Es"
+    ],
+    "83": [
+      91,
+      "LES",
+      "2Es"
+    ],
+    "A4": [
+      92,
+      "EZA",
+      "EzA"
+    ],
+    "A5": [
+      93,
+      "EZ5",
+      "5Ez"
+    ],
+    "A6": [
+      94,
+      "EZ6",
+      "6Ez"
+    ],
+    "74": [
+      102,
+      [
+        "LJE",
+        "LJB"
+      ],
+      [
+        "LJe",
+        "LJe"
+      ]
+    ],
+    "73": [
+      101,
+      "BAR",
+      "Bar"
+    ],
+    "B4": [
+      105,
+      [
+        "BA2",
+        "LB2"
+      ],
+      [
+        "2Ba",
+        "2Ba"
+      ]
+    ],
+    "B5": [
+      104,
+      "LBA",
+      "LBa"
     ],
-    "60": [
-      60,
-      "PE1"
+    "C2": [
+      107,
+      "BA4",
+      "4Ba"
     ],
-    "61": [
-      61,
-      "PE2"
+    "78": [
+      111,
+      "MA1",
+      "1Ma"
     ],
-    "62": [
-      62,
-      "JN1"
+    "79": [
+      112,
+      "MA2",
+      "2Ma"
     ],
-    "63": [
-      63,
-      "JN2"
+    "80": [
+      113,
+      "MA3",
+      "3Ma"
     ],
-    "64": [
-      64,
-      "JN3"
+    "81": [
+      114,
+      "MA4",
+      "4Ma"
     ],
-    "65": [
-      65,
-      "JDE"
+    "B8": [
+      116,
+      "MQ1",
+      "1Mq"
     ],
-    "66": [
-      66,
-      "REV"
+    "B9": [
+      117,
+      "MQ2",
+      "2Mq"
     ],
-    "95": [
-      72,
-      [
-        "ESG",
-        "ESA",
-        "ESC"
-      ]
+    "C0": [
+      118,
+      "MQ3",
+      "3Mq"
     ],
-    "78": [
-      80,
-      "BEL"
+    "88": [
+      125,
+      "PSB",
+      "PsB"
     ],
-    "77": [
-      81,
-      "SUS"
+    "85": [
+      126,
+      "PS2",
+      "Ps2"
     ],
-    "70": [
-      82,
-      "JDT"
+    "B3": [
+      127,
+      "PS3",
+      "Ps3"
     ],
-    "82": [
-      83,
-      "MAN"
+    "87": [
+      128,
+      "PSS",
+      "PsS"
     ],
-    "94": [
-      84,
-      "SIR"
+    "C3": [
+      130,
+      "LAO",
+      "Lao"
     ],
-    "69": [
-      86,
-      "TOB"
+    "86": [
+      131,
+      "ODE",
+      "Oda"
     ],
-    "72": [
-      87,
-      "WIS"
+    "B6": [
+      140,
+      "JUB",
+      "Jub"
     ],
-    "76": [
-      88,
-      "PAZ"
+    "B7": [
+      141,
+      "ENO",
+      "Eno"
     ],
-    "81": [
-      90,
-      "GES"
+    "C1": [
+      143,
+      "REP",
+      "Rep"
     ],
-    "83": [
-      91,
-      "LES"
+    "A0": [
+      700,
+      "FRT",
+      "Frt"
     ],
-    "75": [
-      100,
-      "LJE"
+    "A9": [
+      725,
+      "GLS",
+      "Glo"
     ],
-    "74": [
-      101,
-      "BAR"
+    "94": [
+      800,
+      "XXA",
+      "XXA"
     ],
-    "79": [
-      111,
-      "MA1"
+    "95": [
+      810,
+      "XXB",
+      "XXB"
     ],
-    "80": [
-      112,
-      "MA2"
+    "96": [
+      820,
+      "XXC",
+      "XXC"
     ],
-    "84": [
-      113,
-      "MA3"
+    "97": [
+      830,
+      "XXD",
+      "XXD"
     ],
-    "85": [
-      114,
-      "MA4"
+    "98": [
+      840,
+      "XXE",
+      "XXE"
     ],
-    "86": [
-      126,
-      "PS2"
+    "99": [
+      850,
+      "XXF",
+      "XXF"
     ]
   },
-  "USFMAbbreviationDict": {
-    "GEN": [
+  "USXNumberDict": {
+    "001": [
       1,
       "GEN",
-      "01"
+      "Gen"
     ],
-    "EXO": [
+    "002": [
       2,
       "EXO",
-      "02"
+      "Exo"
     ],
-    "LEV": [
+    "003": [
       3,
       "LEV",
-      "03"
+      "Lev"
     ],
-    "NUM": [
+    "004": [
       4,
       "NUM",
-      "04"
+      "Num"
     ],
-    "DEU": [
+    "005": [
       5,
       "DEU",
-      "05"
+      "Deu"
     ],
-    "JOS": [
+    "006": [
       6,
       "JOS",
-      "06"
+      "Jos"
     ],
-    "JDG": [
+    "007": [
       7,
       "JDG",
-      "07"
+      "Jdg"
     ],
-    "RUT": [
+    "008": [
       8,
       "RUT",
-      "08"
+      "Rut"
     ],
-    "1SA": [
+    "009": [
       9,
       "SA1",
-      "09"
+      "1Sa"
     ],
-    "2SA": [
+    "010": [
       10,
       "SA2",
-      "10"
+      "2Sa"
     ],
-    "1KI": [
+    "011": [
       11,
       "KI1",
-      "11"
+      "1Ki"
     ],
-    "2KI": [
+    "012": [
       12,
       "KI2",
-      "12"
+      "2Ki"
     ],
-    "1CH": [
+    "013": [
       13,
       "CH1",
-      "13"
+      "1Ch"
     ],
-    "2CH": [
+    "014": [
       14,
       "CH2",
-      "14"
-    ],
-    "EZR": [
-      640,
-      [
-        "EZR",
-        "EZN"
-      ],
-      [
-        "15",
-        "15"
-      ]
+      "2Ch"
     ],
-    "NEH": [
+    "015": [
+      15,
+      "EZR",
+      "Ezr"
+    ],
+    "016": [
       16,
       "NEH",
-      "16"
+      "Neh"
     ],
-    "EST": [
+    "017": [
       17,
       "EST",
-      "17"
+      "Est"
     ],
-    "JOB": [
+    "018": [
       18,
       "JOB",
-      "18"
+      "Job"
     ],
-    "PSA": [
+    "019": [
       19,
       "PSA",
-      "19"
+      "Psa"
     ],
-    "PRO": [
+    "020": [
       20,
       "PRO",
-      "20"
+      "Pro"
     ],
-    "ECC": [
+    "021": [
       21,
       "ECC",
-      "21"
+      "Ecc"
     ],
-    "SNG": [
+    "022": [
       22,
       "SNG",
-      "22"
+      "Sng"
     ],
-    "ISA": [
+    "023": [
       23,
       "ISA",
-      "23"
+      "Isa"
     ],
-    "JER": [
+    "024": [
       24,
       "JER",
-      "24"
+      "Jer"
     ],
-    "LAM": [
+    "025": [
       25,
       "LAM",
-      "25"
+      "Lam"
     ],
-    "EZK": [
+    "026": [
       26,
       "EZE",
-      "26"
+      "Ezk"
     ],
-    "DAN": [
+    "027": [
       27,
       "DAN",
-      "27"
+      "Dan"
     ],
-    "HOS": [
+    "028": [
       28,
       "HOS",
-      "28"
+      "Hos"
     ],
-    "JOL": [
+    "029": [
       29,
       "JOL",
-      "29"
+      "Jol"
     ],
-    "AMO": [
+    "030": [
       30,
       "AMO",
-      "30"
+      "Amo"
     ],
-    "OBA": [
+    "031": [
       31,
       "OBA",
-      "31"
+      "Oba"
     ],
-    "JON": [
+    "032": [
       32,
       "JNA",
-      "32"
+      "Jon"
     ],
-    "MIC": [
+    "033": [
       33,
       "MIC",
-      "33"
+      "Mic"
     ],
-    "NAM": [
+    "034": [
       34,
       "NAH",
-      "34"
+      "Nam"
     ],
-    "HAB": [
+    "035": [
       35,
       "HAB",
-      "35"
+      "Hab"
     ],
-    "ZEP": [
+    "036": [
       36,
       "ZEP",
-      "36"
+      "Zep"
     ],
-    "HAG": [
+    "037": [
       37,
       "HAG",
-      "37"
+      "Hag"
     ],
-    "ZEC": [
+    "038": [
       38,
       "ZEC",
-      "38"
+      "Zec"
     ],
-    "MAL": [
+    "039": [
       39,
       "MAL",
-      "39"
+      "Mal"
     ],
-    "MAT": [
+    "040": [
       40,
       "MAT",
-      "41"
+      "Mat"
     ],
-    "MRK": [
+    "041": [
       41,
       "MRK",
-      "42"
+      "Mrk"
     ],
-    "LUK": [
+    "042": [
       42,
       "LUK",
-      "43"
+      "Luk"
     ],
-    "JHN": [
+    "043": [
       43,
       "JHN",
-      "44"
+      "Jhn"
     ],
-    "ACT": [
+    "044": [
       44,
       "ACT",
-      "45"
+      "Act"
     ],
-    "ROM": [
+    "045": [
       45,
       "ROM",
-      "46"
+      "Rom"
     ],
-    "1CO": [
+    "046": [
       46,
       "CO1",
-      "47"
+      "1Co"
     ],
-    "2CO": [
+    "047": [
       47,
       "CO2",
-      "48"
+      "2Co"
     ],
-    "GAL": [
+    "048": [
       48,
       "GAL",
-      "49"
+      "Gal"
     ],
-    "EPH": [
+    "049": [
       49,
       "EPH",
-      "50"
+      "Eph"
     ],
-    "PHP": [
+    "050": [
       50,
       "PHP",
-      "51"
+      "Php"
     ],
-    "COL": [
+    "051": [
       51,
       "COL",
-      "52"
+      "Col"
     ],
-    "1TH": [
+    "052": [
       52,
       "TH1",
-      "53"
+      "1Th"
     ],
-    "2TH": [
+    "053": [
       53,
       "TH2",
-      "54"
+      "2Th"
     ],
-    "1TI": [
+    "054": [
       54,
       "TI1",
-      "55"
+      "1Ti"
     ],
-    "2TI": [
+    "055": [
       55,
       "TI2",
-      "56"
+      "2Ti"
     ],
-    "TIT": [
+    "056": [
       56,
       "TIT",
-      "57"
+      "Tit"
     ],
-    "PHM": [
+    "057": [
       57,
       "PHM",
-      "58"
+      "Phm"
     ],
-    "HEB": [
+    "058": [
       58,
       "HEB",
-      "59"
+      "Heb"
     ],
-    "JAS": [
+    "059": [
       59,
       "JAM",
-      "60"
+      "Jas"
     ],
-    "1PE": [
+    "060": [
       60,
       "PE1",
-      "61"
+      "1Pe"
     ],
-    "2PE": [
+    "061": [
       61,
       "PE2",
-      "62"
+      "2Pe"
     ],
-    "1JN": [
+    "062": [
       62,
       "JN1",
-      "63"
+      "1Jn"
     ],
-    "2JN": [
+    "063": [
       63,
       "JN2",
-      "64"
+      "2Jn"
     ],
-    "3JN": [
+    "064": [
       64,
       "JN3",
-      "65"
+      "3Jn"
     ],
-    "JUD": [
+    "065": [
       65,
       "JDE",
-      "66"
+      "Jud"
     ],
-    "REV": [
+    "066": [
       66,
       "REV",
-      "67"
-    ],
-    "ESG": [
-      72,
-      [
-        "ESG",
-        "ESC"
-      ],
-      [
-        "70",
-        "70"
-      ]
+      "Rev"
     ],
-    "ADE": [
-      71,
-      "ESA",
-      "70"
+    "069": [
+      70,
+      "ESG",
+      "EsG"
     ],
-    "DAG": [
-      75,
-      [
-        "DNG",
-        "DNA",
-        "DNC"
-      ],
-      [
-        "B2",
-        "B2",
-        "B2"
-      ]
+    "112": [
+      73,
+      "DNG",
+      "DaG"
     ],
-    "BEL": [
+    "076": [
       80,
       "BEL",
-      "77"
+      "Bel"
     ],
-    "SUS": [
+    "075": [
       81,
       "SUS",
-      "76"
+      "Sus"
     ],
-    "JDT": [
+    "068": [
       82,
       "JDT",
-      "69"
+      "Jdt"
     ],
-    "MAN": [
+    "083": [
       83,
       "MAN",
-      "84"
+      "Man"
     ],
-    "SIR": [
+    "071": [
       84,
       "SIR",
-      "72"
+      "Sir"
     ],
-    "TOB": [
+    "067": [
       86,
       "TOB",
-      "68"
+      "Tob"
     ],
-    "WIS": [
+    "070": [
       87,
       "WIS",
-      "71"
+      "Wis"
     ],
-    "S3Y": [
+    "074": [
       88,
       "PAZ",
-      "75"
+      "S3Y"
     ],
-    "1ES": [
+    "081": [
       90,
       "GES",
-      "82"
+      "1Es"
     ],
-    "2ES": [
+    "082": [
       91,
       "LES",
-      "83"
+      "2Es"
     ],
-    "EZA": [
+    "104": [
       92,
       "EZA",
-      "A4"
-    ],
-    "5EZ": [
-      93,
-      "EZ5",
-      "A5"
-    ],
-    "6EZ": [
-      94,
-      "EZ6",
-      "A6"
+      "EzA"
     ],
-    "LJE": [
-      102,
-      [
-        "LJE",
-        "LJB"
-      ],
-      [
-        "74",
-        "74"
-      ]
+    "073": [
+      100,
+      "LJE",
+      "LJe"
     ],
-    "BAR": [
+    "072": [
       101,
       "BAR",
-      "73"
+      "Bar"
     ],
-    "2BA": [
-      105,
-      [
-        "BA2",
-        "LB2"
-      ],
-      [
-        "B4",
-        "B4"
-      ]
+    "114": [
+      103,
+      "BA2",
+      "2Ba"
     ],
-    "LBA": [
+    "115": [
       104,
       "LBA",
-      "B5"
-    ],
-    "4BA": [
-      107,
-      "BA4",
-      "C2"
+      "LBa"
     ],
-    "1MA": [
+    "077": [
       111,
       "MA1",
-      "78"
+      "1Ma"
     ],
-    "2MA": [
+    "078": [
       112,
       "MA2",
-      "79"
+      "2Ma"
     ],
-    "3MA": [
+    "079": [
       113,
       "MA3",
-      "80"
+      "3Ma"
     ],
-    "4MA": [
+    "080": [
       114,
       "MA4",
-      "81"
-    ],
-    "1MQ": [
-      116,
-      "MQ1",
-      "B8"
-    ],
-    "2MQ": [
-      117,
-      "MQ2",
-      "B9"
-    ],
-    "3MQ": [
-      118,
-      "MQ3",
-      "C0"
-    ],
-    "PSB": [
-      125,
-      "PSB",
-      "88"
+      "4Ma"
     ],
-    "PS2": [
+    "084": [
       126,
       "PS2",
-      "85"
+      "Ps2"
     ],
-    "PS3": [
+    "113": [
       127,
       "PS3",
-      "B3"
+      "Ps3"
     ],
-    "PSS": [
+    "086": [
       128,
       "PSS",
-      "87"
+      "PsS"
     ],
-    "LAO": [
+    "123": [
       130,
       "LAO",
-      "C3"
+      "Lao"
     ],
-    "ODA": [
+    "085": [
       131,
       "ODE",
-      "86"
-    ],
-    "PSO": [
-      132,
-      "PSO",
-      null
-    ],
-    "PJE": [
-      133,
-      "PJE",
-      null
-    ],
-    "WSI": [
-      134,
-      "WSI",
-      null
-    ],
-    "COP": [
-      135,
-      "COP",
-      null
-    ],
-    "3CO": [
-      136,
-      "CO3",
-      null
-    ],
-    "EUT": [
-      137,
-      "EUT",
-      null
-    ],
-    "DOJ": [
-      138,
-      "DOJ",
-      null
-    ],
-    "JUB": [
-      140,
-      "JUB",
-      "B6"
-    ],
-    "ENO": [
-      141,
-      "ENO",
-      "B7"
-    ],
-    "REP": [
-      143,
-      "REP",
-      "C1"
-    ],
-    "1CL": [
-      150,
-      "CL1",
-      null
-    ],
-    "2CL": [
-      151,
-      "CL2",
-      null
-    ],
-    "DID": [
-      153,
-      "DID",
-      null
-    ],
-    "JSA": [
-      154,
-      "JSA",
-      null
-    ],
-    "JDB": [
-      155,
-      "JGB",
-      null
-    ],
-    "TBS": [
-      156,
-      "TBS",
-      null
-    ],
-    "SST": [
-      157,
-      "SST",
-      null
-    ],
-    "DNT": [
-      158,
-      "DNT",
-      null
-    ],
-    "BLT": [
-      159,
-      "BLT",
-      null
-    ],
-    "SHE": [
-      280,
-      "SHE",
-      null
+      "Oda"
     ],
-    "FRT": [
+    "100": [
       700,
       "FRT",
-      "A0"
+      "Frt"
     ],
-    "INT": [
+    "107": [
       715,
       "INT",
-      null
+      "Int"
     ],
-    "GLO": [
+    "109": [
       725,
       "GLS",
-      "A9"
-    ],
-    "CNC": [
-      730,
-      "CNC",
-      null
+      "Glo"
     ],
-    "NDX": [
+    "111": [
       740,
       "IXN",
-      null
+      "NDX"
     ],
-    "TDX": [
+    "110": [
       755,
       "IXT",
-      null
+      "TDX"
     ],
-    "BAK": [
+    "101": [
       760,
       "BAK",
-      null
-    ],
-    "OTH": [
-      870,
-      "OTH",
-      null
+      "Bak"
     ],
-    "XXA": [
+    "093": [
       800,
       "XXA",
-      "94"
+      "XXA"
     ],
-    "XXB": [
+    "094": [
       810,
       "XXB",
-      "95"
+      "XXB"
     ],
-    "XXC": [
+    "095": [
       820,
       "XXC",
-      "96"
+      "XXC"
     ],
-    "XXD": [
+    "096": [
       830,
       "XXD",
-      "97"
+      "XXD"
     ],
-    "XXE": [
+    "097": [
       840,
       "XXE",
-      "98"
+      "XXE"
     ],
-    "XXF": [
+    "098": [
       850,
       "XXF",
-      "99"
+      "XXF"
     ],
-    "XXG": [
+    "099": [
       860,
       "XXG",
-      null
+      "XXG"
     ]
   },
-  "USFMNumberDict": {
-    "01": [
+  "UnboundCodeDict": {
+    "01O": [
       1,
       "GEN",
       "Gen"
     ],
-    "02": [
+    "02O": [
       2,
       "EXO",
       "Exo"
     ],
-    "03": [
+    "03O": [
       3,
       "LEV",
       "Lev"
     ],
-    "04": [
+    "04O": [
       4,
       "NUM",
       "Num"
     ],
-    "05": [
+    "05O": [
       5,
       "DEU",
       "Deu"
     ],
-    "06": [
+    "06O": [
       6,
       "JOS",
       "Jos"
     ],
-    "07": [
+    "07O": [
       7,
       "JDG",
       "Jdg"
     ],
-    "08": [
+    "08O": [
       8,
       "RUT",
       "Rut"
     ],
-    "09": [
+    "09O": [
       9,
       "SA1",
       "1Sa"
     ],
-    "10": [
+    "10O": [
       10,
       "SA2",
       "2Sa"
     ],
-    "11": [
+    "11O": [
       11,
       "KI1",
       "1Ki"
     ],
-    "12": [
+    "12O": [
       12,
       "KI2",
       "2Ki"
     ],
-    "13": [
+    "13O": [
       13,
       "CH1",
       "1Ch"
     ],
-    "14": [
+    "14O": [
       14,
       "CH2",
       "2Ch"
     ],
-    "15": [
-      640,
-      [
-        "EZR",
-        "EZN"
-      ],
-      [
-        "Ezr",
-        "Ezr"
-      ]
+    "15O": [
+      15,
+      "EZR",
+      "Ezr"
     ],
-    "16": [
+    "16O": [
       16,
       "NEH",
       "Neh"
     ],
-    "17": [
+    "17O": [
       17,
       "EST",
       "Est"
     ],
-    "18": [
+    "18O": [
       18,
       "JOB",
       "Job"
     ],
-    "19": [
+    "19O": [
       19,
       "PSA",
       "Psa"
     ],
-    "20": [
+    "20O": [
       20,
       "PRO",
       "Pro"
     ],
-    "21": [
+    "21O": [
       21,
       "ECC",
       "Ecc"
     ],
-    "22": [
+    "22O": [
       22,
       "SNG",
       "Sng"
     ],
-    "23": [
+    "23O": [
       23,
       "ISA",
       "Isa"
     ],
-    "24": [
+    "24O": [
       24,
       "JER",
       "Jer"
     ],
-    "25": [
+    "25O": [
       25,
       "LAM",
       "Lam"
     ],
-    "26": [
+    "26O": [
       26,
       "EZE",
       "Ezk"
     ],
-    "27": [
+    "27O": [
       27,
       "DAN",
       "Dan"
     ],
-    "28": [
+    "28O": [
       28,
       "HOS",
       "Hos"
     ],
-    "29": [
+    "29O": [
       29,
       "JOL",
       "Jol"
     ],
-    "30": [
+    "30O": [
       30,
       "AMO",
       "Amo"
     ],
-    "31": [
+    "31O": [
       31,
       "OBA",
       "Oba"
     ],
-    "32": [
+    "32O": [
       32,
       "JNA",
       "Jon"
     ],
-    "33": [
+    "33O": [
       33,
       "MIC",
       "Mic"
     ],
-    "34": [
+    "34O": [
       34,
       "NAH",
       "Nam"
     ],
-    "35": [
+    "35O": [
       35,
       "HAB",
       "Hab"
     ],
-    "36": [
+    "36O": [
       36,
       "ZEP",
       "Zep"
     ],
-    "37": [
+    "37O": [
       37,
       "HAG",
       "Hag"
     ],
-    "38": [
+    "38O": [
       38,
       "ZEC",
       "Zec"
     ],
-    "39": [
+    "39O": [
       39,
       "MAL",
       "Mal"
     ],
-    "41": [
+    "40N": [
       40,
       "MAT",
       "Mat"
     ],
-    "42": [
+    "41N": [
       41,
       "MRK",
       "Mrk"
     ],
-    "43": [
+    "42N": [
       42,
       "LUK",
       "Luk"
     ],
-    "44": [
+    "43N": [
       43,
       "JHN",
       "Jhn"
     ],
-    "45": [
+    "44N": [
       44,
       "ACT",
       "Act"
     ],
-    "46": [
+    "45N": [
       45,
       "ROM",
       "Rom"
     ],
-    "47": [
+    "46N": [
       46,
       "CO1",
       "1Co"
     ],
-    "48": [
+    "47N": [
       47,
       "CO2",
       "2Co"
     ],
-    "49": [
+    "48N": [
       48,
       "GAL",
       "Gal"
     ],
-    "50": [
+    "49N": [
       49,
       "EPH",
       "Eph"
     ],
-    "51": [
+    "50N": [
       50,
       "PHP",
       "Php"
     ],
-    "52": [
+    "51N": [
       51,
       "COL",
       "Col"
     ],
-    "53": [
+    "52N": [
       52,
       "TH1",
       "1Th"
     ],
-    "54": [
+    "53N": [
       53,
       "TH2",
       "2Th"
     ],
-    "55": [
+    "54N": [
       54,
       "TI1",
       "1Ti"
     ],
-    "56": [
+    "55N": [
       55,
       "TI2",
       "2Ti"
     ],
-    "57": [
+    "56N": [
       56,
       "TIT",
       "Tit"
     ],
-    "58": [
+    "57N": [
       57,
       "PHM",
       "Phm"
     ],
-    "59": [
+    "58N": [
       58,
       "HEB",
       "Heb"
     ],
-    "60": [
+    "59N": [
       59,
       "JAM",
       "Jas"
     ],
-    "61": [
+    "60N": [
       60,
       "PE1",
       "1Pe"
     ],
-    "62": [
+    "61N": [
       61,
       "PE2",
       "2Pe"
     ],
-    "63": [
+    "62N": [
       62,
       "JN1",
       "1Jn"
     ],
-    "64": [
+    "63N": [
       63,
       "JN2",
       "2Jn"
     ],
-    "65": [
+    "64N": [
       64,
       "JN3",
       "3Jn"
     ],
-    "66": [
+    "65N": [
       65,
       "JDE",
       "Jud"
     ],
-    "67": [
+    "66N": [
       66,
       "REV",
       "Rev"
     ],
-    "70": [
-      72,
-      [
-        "ESG",
-        "ESA",
-        "ESC"
-      ],
-      [
-        "EsG",
-        "ADE",
-        "EsG"
-      ]
-    ],
-    "B2": [
-      75,
-      [
-        "DNG",
-        "DNA",
-        "DNC"
-      ],
-      [
-        "DaG",
-        "DaG",
-        "DaG"
-      ]
+    "69A": [
+      70,
+      "ESG",
+      "EsG"
     ],
-    "77": [
+    "76A": [
       80,
       "BEL",
       "Bel"
     ],
-    "76": [
+    "75A": [
       81,
       "SUS",
       "Sus"
     ],
-    "69": [
+    "68A": [
       82,
       "JDT",
       "Jdt"
     ],
-    "84": [
+    "83A": [
       83,
       "MAN",
       "Man"
     ],
-    "72": [
+    "71A": [
       84,
       "SIR",
       "Sir"
     ],
-    "68": [
+    "67A": [
       86,
       "TOB",
       "Tob"
     ],
-    "71": [
+    "70A": [
       87,
       "WIS",
       "Wis"
     ],
-    "75": [
+    "74A": [
       88,
       "PAZ",
       "S3Y"
     ],
-    "82": [
-      90,
-      "GES",
-      "1Es"
-    ],
-    "83": [
-      91,
-      "LES",
-      "2Es"
-    ],
-    "A4": [
-      92,
-      "EZA",
-      "EzA"
-    ],
-    "A5": [
-      93,
-      "EZ5",
-      "5Ez"
+    "81A": [
+      90,
+      "GES",
+      "1Es"
     ],
-    "A6": [
-      94,
-      "EZ6",
-      "6Ez"
+    "82A": [
+      91,
+      "LES",
+      "2Es"
     ],
-    "74": [
-      102,
-      [
-        "LJE",
-        "LJB"
-      ],
-      [
-        "LJe",
-        "LJe"
-      ]
+    "73A": [
+      100,
+      "LJE",
+      "LJe"
     ],
-    "73": [
+    "72A": [
       101,
       "BAR",
       "Bar"
     ],
-    "B4": [
-      105,
-      [
-        "BA2",
-        "LB2"
-      ],
-      [
-        "2Ba",
-        "2Ba"
-      ]
-    ],
-    "B5": [
-      104,
-      "LBA",
-      "LBa"
-    ],
-    "C2": [
-      107,
-      "BA4",
-      "4Ba"
-    ],
-    "78": [
+    "77A": [
       111,
       "MA1",
       "1Ma"
     ],
-    "79": [
+    "78A": [
       112,
       "MA2",
       "2Ma"
     ],
-    "80": [
+    "79A": [
       113,
       "MA3",
       "3Ma"
     ],
-    "81": [
+    "80A": [
       114,
       "MA4",
       "4Ma"
     ],
-    "B8": [
-      116,
-      "MQ1",
-      "1Mq"
-    ],
-    "B9": [
-      117,
-      "MQ2",
-      "2Mq"
-    ],
-    "C0": [
-      118,
-      "MQ3",
-      "3Mq"
-    ],
-    "88": [
-      125,
-      "PSB",
-      "PsB"
-    ],
-    "85": [
+    "84A": [
       126,
       "PS2",
       "Ps2"
     ],
-    "B3": [
-      127,
-      "PS3",
-      "Ps3"
-    ],
-    "87": [
+    "85A": [
       128,
       "PSS",
       "PsS"
     ],
-    "C3": [
-      130,
-      "LAO",
-      "Lao"
-    ],
-    "86": [
+    "86A": [
       131,
       "ODE",
       "Oda"
-    ],
-    "B6": [
-      140,
-      "JUB",
-      "Jub"
-    ],
-    "B7": [
-      141,
-      "ENO",
-      "Eno"
-    ],
-    "C1": [
-      143,
-      "REP",
-      "Rep"
-    ],
-    "A0": [
-      700,
-      "FRT",
-      "Frt"
-    ],
-    "A9": [
-      725,
-      "GLS",
-      "Glo"
-    ],
-    "94": [
-      800,
-      "XXA",
-      "XXA"
-    ],
-    "95": [
-      810,
-      "XXB",
-      "XXB"
-    ],
-    "96": [
-      820,
-      "XXC",
-      "XXC"
-    ],
-    "97": [
-      830,
-      "XXD",
-      "XXD"
-    ],
-    "98": [
-      840,
-      "XXE",
-      "XXE"
-    ],
-    "99": [
-      850,
-      "XXF",
-      "XXF"
     ]
   },
-  "USXNumberDict": {
-    "001": [
+  "BibleditNumberDict": {
+    "1": [
       1,
       "GEN",
       "Gen"
     ],
-    "002": [
+    "2": [
       2,
       "EXO",
       "Exo"
     ],
-    "003": [
+    "3": [
       3,
       "LEV",
       "Lev"
     ],
-    "004": [
+    "4": [
       4,
       "NUM",
       "Num"
     ],
-    "005": [
+    "5": [
       5,
       "DEU",
       "Deu"
     ],
-    "006": [
+    "6": [
       6,
       "JOS",
       "Jos"
     ],
-    "007": [
+    "7": [
       7,
       "JDG",
       "Jdg"
     ],
-    "008": [
+    "8": [
       8,
       "RUT",
       "Rut"
     ],
-    "009": [
+    "9": [
       9,
       "SA1",
       "1Sa"
     ],
-    "010": [
+    "10": [
       10,
       "SA2",
       "2Sa"
     ],
-    "011": [
+    "11": [
       11,
       "KI1",
       "1Ki"
     ],
-    "012": [
+    "12": [
       12,
       "KI2",
       "2Ki"
     ],
-    "013": [
+    "13": [
       13,
       "CH1",
       "1Ch"
     ],
-    "014": [
+    "14": [
       14,
       "CH2",
       "2Ch"
     ],
-    "015": [
+    "15": [
       15,
       "EZR",
       "Ezr"
     ],
-    "016": [
+    "16": [
       16,
       "NEH",
       "Neh"
     ],
-    "017": [
+    "17": [
       17,
       "EST",
       "Est"
     ],
-    "018": [
+    "18": [
       18,
       "JOB",
       "Job"
     ],
-    "019": [
+    "19": [
       19,
       "PSA",
       "Psa"
     ],
-    "020": [
+    "20": [
       20,
       "PRO",
       "Pro"
     ],
-    "021": [
+    "21": [
       21,
       "ECC",
       "Ecc"
     ],
-    "022": [
+    "22": [
       22,
       "SNG",
       "Sng"
     ],
-    "023": [
+    "23": [
       23,
       "ISA",
       "Isa"
     ],
-    "024": [
+    "24": [
       24,
       "JER",
       "Jer"
     ],
-    "025": [
+    "25": [
       25,
       "LAM",
       "Lam"
     ],
-    "026": [
+    "26": [
       26,
       "EZE",
       "Ezk"
     ],
-    "027": [
+    "27": [
       27,
       "DAN",
       "Dan"
     ],
-    "028": [
+    "28": [
       28,
       "HOS",
       "Hos"
     ],
-    "029": [
+    "29": [
       29,
       "JOL",
       "Jol"
     ],
-    "030": [
+    "30": [
       30,
       "AMO",
       "Amo"
     ],
-    "031": [
+    "31": [
       31,
       "OBA",
       "Oba"
     ],
-    "032": [
+    "32": [
       32,
       "JNA",
       "Jon"
     ],
-    "033": [
+    "33": [
       33,
       "MIC",
       "Mic"
     ],
-    "034": [
+    "34": [
       34,
       "NAH",
       "Nam"
     ],
-    "035": [
+    "35": [
       35,
       "HAB",
       "Hab"
     ],
-    "036": [
+    "36": [
       36,
       "ZEP",
       "Zep"
     ],
-    "037": [
+    "37": [
       37,
       "HAG",
       "Hag"
     ],
-    "038": [
+    "38": [
       38,
       "ZEC",
       "Zec"
     ],
-    "039": [
+    "39": [
       39,
       "MAL",
       "Mal"
     ],
-    "040": [
+    "40": [
       40,
       "MAT",
       "Mat"
     ],
-    "041": [
+    "41": [
       41,
       "MRK",
       "Mrk"
     ],
-    "042": [
+    "42": [
       42,
       "LUK",
       "Luk"
     ],
-    "043": [
+    "43": [
       43,
       "JHN",
       "Jhn"
     ],
-    "044": [
+    "44": [
       44,
       "ACT",
       "Act"
     ],
-    "045": [
+    "45": [
       45,
       "ROM",
       "Rom"
     ],
-    "046": [
+    "46": [
       46,
       "CO1",
       "1Co"
     ],
-    "047": [
+    "47": [
       47,
       "CO2",
       "2Co"
     ],
-    "048": [
+    "48": [
       48,
       "GAL",
       "Gal"
     ],
-    "049": [
+    "49": [
       49,
       "EPH",
       "Eph"
     ],
-    "050": [
+    "50": [
       50,
       "PHP",
       "Php"
     ],
-    "051": [
+    "51": [
       51,
       "COL",
       "Col"
     ],
-    "052": [
+    "52": [
       52,
       "TH1",
       "1Th"
     ],
-    "053": [
+    "53": [
       53,
       "TH2",
       "2Th"
     ],
-    "054": [
+    "54": [
       54,
       "TI1",
       "1Ti"
     ],
-    "055": [
+    "55": [
       55,
       "TI2",
       "2Ti"
     ],
-    "056": [
+    "56": [
       56,
       "TIT",
       "Tit"
     ],
-    "057": [
+    "57": [
       57,
       "PHM",
       "Phm"
     ],
-    "058": [
+    "58": [
       58,
       "HEB",
       "Heb"
     ],
-    "059": [
+    "59": [
       59,
       "JAM",
       "Jas"
     ],
-    "060": [
+    "60": [
       60,
       "PE1",
       "1Pe"
     ],
-    "061": [
+    "61": [
       61,
       "PE2",
       "2Pe"
     ],
-    "062": [
+    "62": [
       62,
       "JN1",
       "1Jn"
     ],
-    "063": [
+    "63": [
       63,
       "JN2",
       "2Jn"
     ],
-    "064": [
+    "64": [
       64,
       "JN3",
       "3Jn"
     ],
-    "065": [
+    "65": [
       65,
       "JDE",
       "Jud"
     ],
-    "066": [
+    "66": [
       66,
       "REV",
       "Rev"
     ],
-    "069": [
+    "72": [
       70,
       "ESG",
       "EsG"
     ],
-    "112": [
+    "88": [
       73,
       "DNG",
       "DaG"
     ],
-    "076": [
+    "79": [
       80,
       "BEL",
       "Bel"
     ],
-    "075": [
+    "78": [
       81,
       "SUS",
       "Sus"
     ],
-    "068": [
+    "71": [
       82,
       "JDT",
       "Jdt"
     ],
-    "083": [
+    "83": [
       83,
       "MAN",
       "Man"
     ],
-    "071": [
+    "74": [
       84,
       "SIR",
       "Sir"
     ],
-    "067": [
+    "70": [
       86,
       "TOB",
       "Tob"
     ],
-    "070": [
+    "73": [
       87,
       "WIS",
       "Wis"
     ],
-    "074": [
+    "77": [
       88,
       "PAZ",
       "S3Y"
     ],
-    "081": [
+    "82": [
       90,
       "GES",
       "1Es"
     ],
-    "082": [
+    "86": [
       91,
       "LES",
       "2Es"
     ],
-    "104": [
-      92,
-      "EZA",
-      "EzA"
-    ],
-    "073": [
+    "76": [
       100,
       "LJE",
       "LJe"
     ],
-    "072": [
+    "75": [
       101,
       "BAR",
       "Bar"
     ],
-    "114": [
-      103,
-      "BA2",
-      "2Ba"
-    ],
-    "115": [
-      104,
-      "LBA",
-      "LBa"
-    ],
-    "077": [
+    "80": [
       111,
       "MA1",
       "1Ma"
     ],
-    "078": [
+    "81": [
       112,
       "MA2",
       "2Ma"
     ],
-    "079": [
+    "85": [
       113,
       "MA3",
       "3Ma"
     ],
-    "080": [
+    "87": [
       114,
       "MA4",
       "4Ma"
     ],
-    "084": [
+    "84": [
       126,
       "PS2",
       "Ps2"
     ],
-    "113": [
-      127,
-      "PS3",
-      "Ps3"
-    ],
-    "086": [
-      128,
-      "PSS",
-      "PsS"
-    ],
-    "123": [
-      130,
-      "LAO",
-      "Lao"
-    ],
-    "085": [
-      131,
-      "ODE",
-      "Oda"
-    ],
-    "100": [
+    "67": [
       700,
       "FRT",
       "Frt"
     ],
-    "107": [
-      715,
-      "INT",
-      "Int"
-    ],
-    "109": [
-      725,
-      "GLS",
-      "Glo"
-    ],
-    "111": [
-      740,
-      "IXN",
-      "NDX"
-    ],
-    "110": [
-      755,
-      "IXT",
-      "TDX"
-    ],
-    "101": [
+    "68": [
       760,
       "BAK",
       "Bak"
     ],
-    "093": [
+    "69": [
       800,
       "XXA",
       "XXA"
-    ],
-    "094": [
-      810,
-      "XXB",
-      "XXB"
-    ],
-    "095": [
-      820,
-      "XXC",
-      "XXC"
-    ],
-    "096": [
-      830,
-      "XXD",
-      "XXD"
-    ],
-    "097": [
-      840,
-      "XXE",
-      "XXE"
-    ],
-    "098": [
-      850,
-      "XXF",
-      "XXF"
-    ],
-    "099": [
-      860,
-      "XXG",
-      "XXG"
     ]
   },
-  "UnboundCodeDict": {
-    "01O": [
+  "LogosNumberDict": {
+    "1": [
       1,
       "GEN",
       "Gen"
     ],
-    "02O": [
+    "2": [
       2,
       "EXO",
       "Exo"
     ],
-    "03O": [
+    "3": [
       3,
       "LEV",
       "Lev"
     ],
-    "04O": [
+    "4": [
       4,
       "NUM",
       "Num"
     ],
-    "05O": [
+    "5": [
       5,
       "DEU",
       "Deu"
     ],
-    "06O": [
+    "6": [
       6,
       "JOS",
       "Jos"
     ],
-    "07O": [
+    "7": [
       7,
       "JDG",
       "Jdg"
     ],
-    "08O": [
+    "8": [
       8,
       "RUT",
       "Rut"
     ],
-    "09O": [
+    "9": [
       9,
       "SA1",
       "1Sa"
     ],
-    "10O": [
+    "10": [
       10,
       "SA2",
       "2Sa"
     ],
-    "11O": [
+    "11": [
       11,
       "KI1",
       "1Ki"
     ],
-    "12O": [
+    "12": [
       12,
       "KI2",
       "2Ki"
     ],
-    "13O": [
+    "13": [
       13,
       "CH1",
       "1Ch"
     ],
-    "14O": [
+    "14": [
       14,
       "CH2",
       "2Ch"
     ],
-    "15O": [
+    "15": [
       15,
       "EZR",
       "Ezr"
     ],
-    "16O": [
+    "16": [
       16,
       "NEH",
       "Neh"
     ],
-    "17O": [
+    "17": [
       17,
       "EST",
       "Est"
     ],
-    "18O": [
+    "18": [
       18,
       "JOB",
       "Job"
     ],
-    "19O": [
+    "19": [
       19,
       "PSA",
       "Psa"
     ],
-    "20O": [
+    "20": [
       20,
       "PRO",
       "Pro"
     ],
-    "21O": [
+    "21": [
       21,
       "ECC",
       "Ecc"
     ],
-    "22O": [
+    "22": [
       22,
       "SNG",
       "Sng"
     ],
-    "23O": [
+    "23": [
       23,
       "ISA",
       "Isa"
     ],
-    "24O": [
+    "24": [
       24,
       "JER",
       "Jer"
     ],
-    "25O": [
+    "25": [
       25,
       "LAM",
       "Lam"
     ],
-    "26O": [
+    "26": [
       26,
       "EZE",
       "Ezk"
     ],
-    "27O": [
+    "27": [
       27,
       "DAN",
       "Dan"
     ],
-    "28O": [
+    "28": [
       28,
       "HOS",
       "Hos"
     ],
-    "29O": [
+    "29": [
       29,
       "JOL",
       "Jol"
     ],
-    "30O": [
+    "30": [
       30,
       "AMO",
       "Amo"
     ],
-    "31O": [
+    "31": [
       31,
       "OBA",
       "Oba"
     ],
-    "32O": [
+    "32": [
       32,
       "JNA",
       "Jon"
     ],
-    "33O": [
+    "33": [
       33,
       "MIC",
       "Mic"
     ],
-    "34O": [
+    "34": [
       34,
       "NAH",
       "Nam"
     ],
-    "35O": [
+    "35": [
       35,
       "HAB",
       "Hab"
     ],
-    "36O": [
+    "36": [
       36,
       "ZEP",
       "Zep"
     ],
-    "37O": [
+    "37": [
       37,
       "HAG",
       "Hag"
     ],
-    "38O": [
+    "38": [
       38,
       "ZEC",
       "Zec"
     ],
-    "39O": [
+    "39": [
       39,
       "MAL",
       "Mal"
     ],
-    "40N": [
+    "61": [
       40,
       "MAT",
       "Mat"
     ],
-    "41N": [
+    "62": [
       41,
       "MRK",
       "Mrk"
     ],
-    "42N": [
+    "63": [
       42,
       "LUK",
       "Luk"
     ],
-    "43N": [
+    "64": [
       43,
       "JHN",
       "Jhn"
     ],
-    "44N": [
+    "65": [
       44,
       "ACT",
       "Act"
     ],
-    "45N": [
+    "66": [
       45,
       "ROM",
       "Rom"
     ],
-    "46N": [
+    "67": [
       46,
       "CO1",
       "1Co"
     ],
-    "47N": [
+    "68": [
       47,
       "CO2",
       "2Co"
     ],
-    "48N": [
+    "69": [
       48,
       "GAL",
       "Gal"
     ],
-    "49N": [
+    "70": [
       49,
       "EPH",
       "Eph"
     ],
-    "50N": [
+    "71": [
       50,
       "PHP",
       "Php"
     ],
-    "51N": [
+    "72": [
       51,
       "COL",
       "Col"
     ],
-    "52N": [
+    "73": [
       52,
       "TH1",
       "1Th"
     ],
-    "53N": [
+    "74": [
       53,
       "TH2",
       "2Th"
     ],
-    "54N": [
+    "75": [
       54,
       "TI1",
       "1Ti"
     ],
-    "55N": [
+    "76": [
       55,
       "TI2",
       "2Ti"
     ],
-    "56N": [
+    "77": [
       56,
       "TIT",
       "Tit"
     ],
-    "57N": [
+    "78": [
       57,
       "PHM",
       "Phm"
     ],
-    "58N": [
+    "79": [
       58,
       "HEB",
       "Heb"
     ],
-    "59N": [
+    "80": [
       59,
       "JAM",
       "Jas"
     ],
-    "60N": [
+    "81": [
       60,
       "PE1",
       "1Pe"
     ],
-    "61N": [
+    "82": [
       61,
       "PE2",
       "2Pe"
     ],
-    "62N": [
+    "83": [
       62,
       "JN1",
       "1Jn"
     ],
-    "63N": [
+    "84": [
       63,
       "JN2",
       "2Jn"
     ],
-    "64N": [
+    "85": [
       64,
       "JN3",
       "3Jn"
     ],
-    "65N": [
+    "86": [
       65,
       "JDE",
       "Jud"
     ],
-    "66N": [
+    "87": [
       66,
       "REV",
       "Rev"
     ],
-    "69A": [
+    "42": [
       70,
       "ESG",
       "EsG"
     ],
-    "76A": [
+    "98": [
+      73,
+      "DNG",
+      "DaG"
+    ],
+    "49": [
       80,
       "BEL",
       "Bel"
     ],
-    "75A": [
+    "48": [
       81,
       "SUS",
       "Sus"
     ],
-    "68A": [
+    "41": [
       82,
       "JDT",
       "Jdt"
     ],
-    "83A": [
+    "53": [
       83,
       "MAN",
       "Man"
     ],
-    "71A": [
+    "44": [
       84,
       "SIR",
       "Sir"
     ],
-    "67A": [
+    "40": [
       86,
       "TOB",
       "Tob"
     ],
-    "70A": [
+    "43": [
       87,
       "WIS",
       "Wis"
     ],
-    "74A": [
+    "47": [
       88,
       "PAZ",
       "S3Y"
     ],
-    "81A": [
+    "52": [
       90,
       "GES",
       "1Es"
     ],
-    "82A": [
+    "56": [
       91,
       "LES",
       "2Es"
     ],
-    "73A": [
+    "100": [
+      92,
+      "EZA",
+      "EzA"
+    ],
+    "200": [
+      93,
+      "EZ5",
+      "5Ez"
+    ],
+    "201": [
+      94,
+      "EZ6",
+      "6Ez"
+    ],
+    "46": [
       100,
       "LJE",
       "LJe"
     ],
-    "72A": [
+    "45": [
       101,
       "BAR",
       "Bar"
     ],
-    "77A": [
+    "96": [
+      103,
+      "BA2",
+      "2Ba"
+    ],
+    "97": [
+      104,
+      "LBA",
+      "LBa"
+    ],
+    "99": [
+      105,
+      "LB2",
+      "2Ba"
+    ],
+    "208": [
+      107,
+      "BA4",
+      "4Ba"
+    ],
+    "50": [
       111,
       "MA1",
       "1Ma"
     ],
-    "78A": [
+    "51": [
       112,
       "MA2",
       "2Ma"
     ],
-    "79A": [
+    "55": [
       113,
       "MA3",
       "3Ma"
     ],
-    "80A": [
+    "57": [
       114,
       "MA4",
       "4Ma"
     ],
-    "84A": [
+    "204": [
+      116,
+      "MQ1",
+      "1Mq"
+    ],
+    "205": [
+      117,
+      "MQ2",
+      "2Mq"
+    ],
+    "206": [
+      118,
+      "MQ3",
+      "3Mq"
+    ],
+    "54": [
       126,
       "PS2",
       "Ps2"
     ],
-    "85A": [
+    "202": [
+      127,
+      "PS3",
+      "Ps3"
+    ],
+    "59": [
       128,
       "PSS",
       "PsS"
     ],
-    "86A": [
+    "60": [
+      130,
+      "LAO",
+      "Lao"
+    ],
+    "58": [
       131,
       "ODE",
       "Oda"
+    ],
+    "203": [
+      140,
+      "JUB",
+      "Jub"
+    ],
+    "88": [
+      141,
+      "ENO",
+      "Eno"
+    ],
+    "207": [
+      143,
+      "REP",
+      "Rep"
+    ],
+    "89": [
+      400,
+      "P4D",
+      null
+    ],
+    "90": [
+      401,
+      "A2Z",
+      null
+    ],
+    "91": [
+      402,
+      "EHY",
+      null
+    ],
+    "92": [
+      403,
+      "A2J",
+      null
+    ],
+    "93": [
+      404,
+      "H2C",
+      null
+    ],
+    "94": [
+      405,
+      "CMP",
+      null
+    ],
+    "95": [
+      406,
+      "APS",
+      null
+    ],
+    "101": [
+      407,
+      "CAT",
+      null
+    ],
+    "102": [
+      408,
+      "P1A",
+      null
+    ],
+    "103": [
+      409,
+      "P1B",
+      null
     ]
   },
-  "BibleditNumberDict": {
-    "1": [
+  "LogosAbbreviationDict": {
+    "GE": [
       1,
-      "GEN",
-      "Gen"
+      "GEN"
     ],
-    "2": [
+    "EX": [
       2,
-      "EXO",
-      "Exo"
+      "EXO"
     ],
-    "3": [
+    "LE": [
       3,
-      "LEV",
-      "Lev"
+      "LEV"
     ],
-    "4": [
+    "NU": [
       4,
-      "NUM",
-      "Num"
+      "NUM"
     ],
-    "5": [
+    "DT": [
       5,
-      "DEU",
-      "Deu"
+      "DEU"
     ],
-    "6": [
+    "JOS": [
       6,
-      "JOS",
-      "Jos"
+      "JOS"
     ],
-    "7": [
+    "JDG": [
       7,
-      "JDG",
-      "Jdg"
+      "JDG"
     ],
-    "8": [
+    "RU": [
       8,
-      "RUT",
-      "Rut"
+      "RUT"
     ],
-    "9": [
+    "1SA": [
       9,
-      "SA1",
-      "1Sa"
+      "SA1"
     ],
-    "10": [
+    "2SA": [
       10,
-      "SA2",
-      "2Sa"
+      "SA2"
     ],
-    "11": [
+    "1KI": [
       11,
-      "KI1",
-      "1Ki"
+      "KI1"
     ],
-    "12": [
+    "2KI": [
       12,
-      "KI2",
-      "2Ki"
+      "KI2"
     ],
-    "13": [
+    "1CH": [
       13,
-      "CH1",
-      "1Ch"
+      "CH1"
     ],
-    "14": [
+    "2CH": [
       14,
-      "CH2",
-      "2Ch"
+      "CH2"
     ],
-    "15": [
+    "EZR": [
       15,
-      "EZR",
-      "Ezr"
+      "EZR"
     ],
-    "16": [
+    "NE": [
       16,
-      "NEH",
-      "Neh"
+      "NEH"
     ],
-    "17": [
+    "ES": [
       17,
-      "EST",
-      "Est"
+      "EST"
     ],
-    "18": [
+    "JOB": [
       18,
-      "JOB",
-      "Job"
+      "JOB"
     ],
-    "19": [
+    "PS": [
       19,
-      "PSA",
-      "Psa"
+      "PSA"
     ],
-    "20": [
-      20,
-      "PRO",
-      "Pro"
+    "PR": [
+      20,
+      "PRO"
     ],
-    "21": [
+    "EC": [
       21,
-      "ECC",
-      "Ecc"
+      "ECC"
     ],
-    "22": [
+    "SO": [
       22,
-      "SNG",
-      "Sng"
+      "SNG"
     ],
-    "23": [
+    "IS": [
       23,
-      "ISA",
-      "Isa"
+      "ISA"
     ],
-    "24": [
+    "JE": [
       24,
-      "JER",
-      "Jer"
+      "JER"
     ],
-    "25": [
+    "LA": [
       25,
-      "LAM",
-      "Lam"
+      "LAM"
     ],
-    "26": [
+    "EZE": [
       26,
-      "EZE",
-      "Ezk"
+      "EZE"
     ],
-    "27": [
+    "DA": [
       27,
-      "DAN",
-      "Dan"
+      "DAN"
     ],
-    "28": [
+    "HO": [
       28,
-      "HOS",
-      "Hos"
+      "HOS"
     ],
-    "29": [
+    "JOE": [
       29,
-      "JOL",
-      "Jol"
+      "JOL"
     ],
-    "30": [
+    "AM": [
       30,
-      "AMO",
-      "Amo"
+      "AMO"
     ],
-    "31": [
+    "OB": [
       31,
-      "OBA",
-      "Oba"
+      "OBA"
     ],
-    "32": [
+    "JON": [
       32,
-      "JNA",
-      "Jon"
+      "JNA"
     ],
-    "33": [
+    "MIC": [
       33,
-      "MIC",
-      "Mic"
+      "MIC"
     ],
-    "34": [
+    "NA": [
       34,
-      "NAH",
-      "Nam"
+      "NAH"
     ],
-    "35": [
+    "HAB": [
       35,
-      "HAB",
-      "Hab"
+      "HAB"
     ],
-    "36": [
+    "ZEP": [
       36,
-      "ZEP",
-      "Zep"
+      "ZEP"
     ],
-    "37": [
+    "HAG": [
       37,
-      "HAG",
-      "Hag"
+      "HAG"
     ],
-    "38": [
+    "ZEC": [
       38,
-      "ZEC",
-      "Zec"
+      "ZEC"
     ],
-    "39": [
+    "MAL": [
       39,
-      "MAL",
-      "Mal"
+      "MAL"
     ],
-    "40": [
+    "MT": [
       40,
-      "MAT",
-      "Mat"
+      "MAT"
     ],
-    "41": [
+    "MK": [
       41,
-      "MRK",
-      "Mrk"
+      "MRK"
     ],
-    "42": [
+    "LK": [
       42,
-      "LUK",
-      "Luk"
+      "LUK"
     ],
-    "43": [
+    "JN": [
       43,
-      "JHN",
-      "Jhn"
+      "JHN"
     ],
-    "44": [
+    "AC": [
       44,
-      "ACT",
-      "Act"
+      "ACT"
     ],
-    "45": [
+    "RO": [
       45,
-      "ROM",
-      "Rom"
+      "ROM"
     ],
-    "46": [
+    "1CO": [
       46,
-      "CO1",
-      "1Co"
+      "CO1"
     ],
-    "47": [
+    "2CO": [
       47,
-      "CO2",
-      "2Co"
+      "CO2"
     ],
-    "48": [
+    "GA": [
       48,
-      "GAL",
-      "Gal"
+      "GAL"
     ],
-    "49": [
+    "EPH": [
       49,
-      "EPH",
-      "Eph"
+      "EPH"
     ],
-    "50": [
+    "PHP": [
       50,
-      "PHP",
-      "Php"
+      "PHP"
     ],
-    "51": [
+    "COL": [
       51,
-      "COL",
-      "Col"
+      "COL"
     ],
-    "52": [
+    "1TH": [
       52,
-      "TH1",
-      "1Th"
+      "TH1"
     ],
-    "53": [
+    "2TH": [
       53,
-      "TH2",
-      "2Th"
+      "TH2"
     ],
-    "54": [
+    "1TI": [
       54,
-      "TI1",
-      "1Ti"
+      "TI1"
     ],
-    "55": [
+    "2TI": [
       55,
-      "TI2",
-      "2Ti"
+      "TI2"
     ],
-    "56": [
+    "TT": [
       56,
-      "TIT",
-      "Tit"
+      "TIT"
     ],
-    "57": [
+    "PHM": [
       57,
-      "PHM",
-      "Phm"
+      "PHM"
     ],
-    "58": [
+    "HEB": [
       58,
-      "HEB",
-      "Heb"
+      "HEB"
     ],
-    "59": [
+    "JAS": [
       59,
-      "JAM",
-      "Jas"
+      "JAM"
     ],
-    "60": [
+    "1PE": [
       60,
-      "PE1",
-      "1Pe"
+      "PE1"
     ],
-    "61": [
+    "2PE": [
       61,
-      "PE2",
-      "2Pe"
+      "PE2"
     ],
-    "62": [
+    "1JN": [
       62,
-      "JN1",
-      "1Jn"
+      "JN1"
     ],
-    "63": [
+    "2JN": [
       63,
-      "JN2",
-      "2Jn"
+      "JN2"
     ],
-    "64": [
+    "3JN": [
       64,
-      "JN3",
-      "3Jn"
+      "JN3"
     ],
-    "65": [
+    "JUD": [
       65,
-      "JDE",
-      "Jud"
+      "JDE"
     ],
-    "66": [
+    "RE": [
       66,
-      "REV",
-      "Rev"
+      "REV"
     ],
-    "72": [
+    "GKES": [
       70,
-      "ESG",
-      "EsG"
-    ],
-    "88": [
-      73,
-      "DNG",
-      "DaG"
+      "ESG"
     ],
-    "79": [
+    "BEL": [
       80,
-      "BEL",
-      "Bel"
+      "BEL"
     ],
-    "78": [
+    "SUS": [
       81,
-      "SUS",
-      "Sus"
+      "SUS"
     ],
-    "71": [
+    "JDT": [
       82,
-      "JDT",
-      "Jdt"
+      "JDT"
     ],
-    "83": [
+    "PRMAN": [
       83,
-      "MAN",
-      "Man"
+      "MAN"
     ],
-    "74": [
+    "SIR": [
       84,
-      "SIR",
-      "Sir"
+      "SIR"
     ],
-    "70": [
+    "TOB": [
       86,
-      "TOB",
-      "Tob"
+      "TOB"
     ],
-    "73": [
+    "WIS": [
       87,
-      "WIS",
-      "Wis"
+      "WIS"
     ],
-    "77": [
+    "SONGTHR": [
       88,
-      "PAZ",
-      "S3Y"
+      "PAZ"
     ],
-    "82": [
+    "1ESD": [
       90,
-      "GES",
-      "1Es"
+      "GES"
     ],
-    "86": [
+    "2ESD": [
       91,
-      "LES",
-      "2Es"
+      "LES"
     ],
-    "76": [
+    "LETJER": [
       100,
-      "LJE",
-      "LJe"
+      "LJE"
     ],
-    "75": [
+    "BAR": [
       101,
-      "BAR",
-      "Bar"
+      "BAR"
     ],
-    "80": [
+    "1MAC": [
       111,
-      "MA1",
-      "1Ma"
+      "MA1"
     ],
-    "81": [
+    "2MAC": [
       112,
-      "MA2",
-      "2Ma"
+      "MA2"
     ],
-    "85": [
+    "3MAC": [
       113,
-      "MA3",
-      "3Ma"
+      "MA3"
     ],
-    "87": [
+    "4MAC": [
       114,
-      "MA4",
-      "4Ma"
+      "MA4"
     ],
-    "84": [
+    "PS151": [
       126,
-      "PS2",
-      "Ps2"
+      "PS2"
     ],
-    "67": [
-      700,
-      "FRT",
-      "Frt"
+    "PSSOL": [
+      128,
+      "PSS"
     ],
-    "68": [
-      760,
-      "BAK",
-      "Bak"
+    "LAOD": [
+      130,
+      "LAO"
     ],
-    "69": [
-      800,
-      "XXA",
-      "XXA"
+    "ODE": [
+      131,
+      "ODE"
     ]
   },
   "NETBibleAbbreviationDict": {
@@ -14142,7 +18744,7 @@
       "CH2"
     ],
     "EZR": [
-      640,
+      625,
       [
         "EZR",
         "EZN"
@@ -14411,7 +19013,7 @@
       "CH2"
     ],
     "EZR": [
-      640,
+      625,
       [
         "EZR",
         "EZN"
@@ -14983,24 +19585,32 @@
       154,
       "JSA"
     ],
-    "JDA": [
+    "JSB": [
       155,
+      "JSB"
+    ],
+    "JDA": [
+      156,
+      "JGA"
+    ],
+    "JDB": [
+      157,
       "JGB"
     ],
     "TBS": [
-      156,
+      158,
       "TBS"
     ],
     "SUT": [
-      157,
+      159,
       "SST"
     ],
     "DAT": [
-      158,
+      160,
       "DNT"
     ],
     "BET": [
-      159,
+      161,
       "BLT"
     ]
   },
@@ -15371,7 +19981,7 @@
       64,
       "JN3"
     ],
-    "JUDE": [
+    "JUDE / JUDAS": [
       65,
       "JDE"
     ],
@@ -15651,152 +20261,160 @@
       154,
       "JSA"
     ],
-    "JUDGES B": [
+    "JOSHUA B": [
       155,
+      "JSB"
+    ],
+    "JUDGES A": [
+      156,
+      "JGA"
+    ],
+    "JUDGES B": [
+      157,
       "JGB"
     ],
     "TOBIT S": [
-      156,
+      158,
       "TBS"
     ],
-    "SUSANNA \u0398 / SUSANNA TH": [
-      157,
+    "SUSANNA Θ / SUSANNA TH": [
+      159,
       "SST"
     ],
-    "DANIEL \u0398 / DANIEL TH": [
-      158,
+    "DANIEL Θ / DANIEL TH": [
+      160,
       "DNT"
     ],
-    "BEL AND THE DRAGON \u0398 / BEL AND THE DRAGON TH": [
-      159,
+    "BEL AND THE DRAGON Θ / BEL AND THE DRAGON TH": [
+      161,
       "BLT"
     ],
     "GOSPEL OF THE HEBREWS": [
-      160,
+      170,
       "GHE"
     ],
     "GOSPEL OF TRUTH": [
-      161,
+      171,
       "GTR"
     ],
     "GOSPEL OF MARY": [
-      162,
+      172,
       "GMA"
     ],
     "GOSPEL OF MARCION": [
-      163,
+      173,
       "GMC"
     ],
     "GOSPEL OF THE TWELVE": [
-      164,
+      174,
       "GTW"
     ],
     "GOSPEL OF PHILIP": [
-      165,
+      175,
       "GPH"
     ],
     "GOSPEL OF THOMAS": [
-      166,
+      176,
       "GTH"
     ],
     "GOSPEL OF JUDAS": [
-      167,
+      177,
       "GJU"
     ],
     "GOSPEL OF BARTHOLOMEW": [
-      168,
+      178,
       "GBA"
     ],
     "APOCRYPHA OF JAMES / APOCRYPHAL JAMES": [
-      169,
+      179,
       "AJA"
     ],
     "WISDOM OF JESUS CHRIST": [
-      170,
+      180,
       "WJC"
     ],
     "TESTAMENT OF ADAM": [
-      180,
+      190,
       "TAD"
     ],
     "LIFE OF ADAM AND EVE": [
-      181,
+      191,
       "LAE"
     ],
     "ASSUMPTION OF MOSES / TESTAMENT OF MOSES": [
-      182,
+      192,
       "ASS"
     ],
     "TESTAMENT OF SOLOMON": [
-      183,
+      193,
       "TSO"
     ],
     "TESTAMENT OF JOB": [
-      184,
+      194,
       "TJB"
     ],
     "MARTYRDOM AND ASCENSION OF ISAIAH": [
-      185,
+      195,
       "MAI"
     ],
     "APOCRYPHA OF EZEKIEL / APOCRYPHON OF EZEKIEL": [
-      186,
+      196,
       "AEZ"
     ],
     "EZEKIEL THE TRAGEDIAN": [
-      187,
+      197,
       "EZT"
     ],
     "EUPOLEMUS": [
-      188,
+      198,
       "EUP"
     ],
     "PSEUDO OF EUPOLEMUS / PSEUDO-EUPOLEMUS": [
-      189,
+      199,
       "PEU"
     ],
     "VISIONS OF AMRAM": [
-      190,
+      200,
       "VAM"
     ],
     "LETTER OF ARISTEAS / EPISTLE OF ARISTEAS": [
-      191,
+      201,
       "LAR"
     ],
     "ARISTEAS THE EXEGETE": [
-      192,
+      202,
       "ARI"
     ],
     "ARISTOBULUS": [
-      193,
+      203,
       "ABL"
     ],
     "ARTAPANUS": [
-      194,
+      204,
       "ART"
     ],
     "CLEODEMUS MALCHUS": [
-      195,
+      205,
       "CLM"
     ],
     "ELDAD AND MODAD": [
-      196,
+      206,
       "ELM"
     ],
     "HISTORY OF THE RECHABITES": [
-      197,
+      207,
       "HRE"
     ],
     "LIVES OF THE PROPHETS": [
-      198,
+      208,
       "LPR"
     ],
     "PHILO THE EPIC POET": [
-      199,
+      209,
       "EPL"
     ],
     "THEODOTUS": [
-      200,
+      210,
       "TEO"
     ],
     "TESTAMENTS OF THE TWELVE PATRIARCHS": [
@@ -15931,34 +20549,90 @@
       310,
       "TAT"
     ],
-    "BOOKS OF MOSES": [
+    "PLEA FOR DELIVERANCE": [
+      400,
+      "P4D"
+    ],
+    "APOSTROPHE TO ZION": [
+      401,
+      "A2Z"
+    ],
+    "ESCHATALOGICAL HYMN": [
+      402,
+      "EHY"
+    ],
+    "APOSTROPHE TO JUDAH": [
+      403,
+      "A2J"
+    ],
+    "HYMN TO THE CREATOR": [
+      404,
+      "H2C"
+    ],
+    "DAVID'S COMPOSITIONS": [
+      405,
+      "CMP"
+    ],
+    "APOCRYPHAL PSALMS": [
+      406,
+      "APS"
+    ],
+    "CATENA": [
+      407,
+      "CAT"
+    ],
+    "PSALM 151A": [
+      408,
+      "P1A"
+    ],
+    "PSALM 151B": [
+      409,
+      "P1B"
+    ],
+    "BOOK OF THE PENTATEUCH / PENTATEUCH / TORAH / BOOKS OF MOSES": [
       600,
       "MOS"
     ],
     "SAMUEL": [
-      610,
+      605,
       "SAM"
     ],
     "KINGS": [
-      620,
+      610,
       "KGS"
     ],
     "SAMUEL-KINGS": [
-      625,
+      615,
       "SMK"
     ],
     "CHRONICLES": [
-      630,
+      620,
       "CHR"
     ],
     "EZRA-NEHEMIAH / 1 ESDRAS": [
-      640,
+      625,
       "EZN"
     ],
     "TWELVE PROPHETS": [
-      650,
+      630,
       "P12"
     ],
+    "BOOK OF WOMEN": [
+      640,
+      "WOM"
+    ],
+    "BOOK OF SESSIONS": [
+      645,
+      "SES"
+    ],
+    "BOOK OF THE PROPHETS": [
+      650,
+      "SPR"
+    ],
+    "BOOK OF THE MACCABEES": [
+      655,
+      "SMC"
+    ],
     "LUKE-ACTS": [
       690,
       "LKA"
@@ -16023,7 +20697,7 @@
       880,
       "WRD"
     ],
-    " WORD DEFINITIONS DICTIONARY": [
+    "WORD DEFINITIONS DICTIONARY": [
       882,
       "WDF"
     ],
@@ -16081,164 +20755,189 @@
     ]
   },
   "allAbbreviationsDict": {
+    "GE": "GEN",
     "GEN": "GEN",
+    "EX": "EXO",
     "EXOD": "EXO",
     "EXO": "EXO",
+    "LE": "LEV",
     "LEV": "LEV",
+    "NU": "NUM",
     "NUM": "NUM",
+    "DT": "DEU",
     "DEUT": "DEU",
     "DEU": "DEU",
-    "JOSH": "JOS",
     "JOS": "JOS",
-    "JUDG": "JDG",
+    "JOSH": "JOS",
     "JDG": "JDG",
+    "JUDG": "JDG",
     "JUG": "JDG",
+    "RU": "RUT",
     "RUTH": "RUT",
     "RUT": "RUT",
+    "1SA": "SA1",
     "1 SAM": "SA1",
     "1SAM": "SA1",
-    "1SA": "SA1",
     "1SM": "SA1",
+    "2SA": "SA2",
     "2 SAM": "SA2",
     "2SAM": "SA2",
-    "2SA": "SA2",
     "2SM": "SA2",
+    "1KI": "KI1",
     "1 KGS": "KI1",
     "1KGS": "KI1",
-    "1KI": "KI1",
     "1KG": "KI1",
+    "2KI": "KI2",
     "2 KGS": "KI2",
     "2KGS": "KI2",
-    "2KI": "KI2",
     "2KG": "KI2",
+    "1CH": "CH1",
     "1 CHR": "CH1",
     "1CHR": "CH1",
-    "1CH": "CH1",
+    "2CH": "CH2",
     "2 CHR": "CH2",
     "2CHR": "CH2",
-    "2CH": "CH2",
+    "NE": "NEH",
     "NEH": "NEH",
+    "ES": "EST",
     "ESTH": "EST",
     "EST": "EST",
+    "JB": "JOB",
     "JOB": "JOB",
     "PS": "PSA",
     "PSA": "PSA",
+    "PR": "PRO",
     "PROV": "PRO",
     "PRO": "PRO",
+    "EC": "ECC",
     "ECCL": "ECC",
     "ECC": "ECC",
+    "SO": "SNG",
     "SONG": "SNG",
     "SNG": "SNG",
     "SOS": "SNG",
     "SON": "SNG",
     "SOL": "SNG",
+    "IS": "ISA",
     "ISA": "ISA",
+    "JE": "JER",
     "JER": "JER",
+    "LA": "LAM",
     "LAM": "LAM",
+    "EZE": "EZE",
     "EZEK": "EZE",
     "EZK": "EZE",
-    "EZE": "EZE",
+    "DA": "DAN",
     "DAN": "DAN",
+    "HO": "HOS",
     "HOS": "HOS",
-    "JOEL": "JOL",
     "JOL": "JOL",
+    "JOEL": "JOL",
     "JOE": "JOL",
+    "AM": "AMO",
     "AMOS": "AMO",
     "AMO": "AMO",
+    "OB": "OBA",
     "OBAD": "OBA",
     "OBA": "OBA",
-    "JONAH": "JNA",
     "JON": "JNA",
-    "NIC": "MIC",
+    "JONAH": "JNA",
+    "MI": "MIC",
     "MIC": "MIC",
+    "NA": "NAH",
     "NAH": "NAH",
     "NAM": "NAH",
     "HAB": "HAB",
-    "ZEPH": "ZEP",
     "ZEP": "ZEP",
+    "ZEPH": "ZEP",
     "HAG": "HAG",
-    "ZECH": "ZEC",
     "ZEC": "ZEC",
+    "ZECH": "ZEC",
     "MAL": "MAL",
+    "MT": "MAT",
     "MATT": "MAT",
     "MAT": "MAT",
-    "MT": "MAT",
+    "MK": "MRK",
     "MARK": "MRK",
     "MRK": "MRK",
     "MAR": "MRK",
     "MAK": "MRK",
     "MR": "MRK",
+    "LK": "LUK",
     "LUKE": "LUK",
     "LUK": "LUK",
     "LU": "LUK",
+    "JN": "JHN",
     "JOHN": "JHN",
     "JHN": "JHN",
     "JOH": "JHN",
+    "AC": "ACT",
     "ACTS": "ACT",
     "ACT": "ACT",
-    "AC": "ACT",
-    "ROM": "ROM",
     "RO": "ROM",
+    "ROM": "ROM",
+    "1CO": "CO1",
     "1 COR": "CO1",
     "1COR": "CO1",
-    "1CO": "CO1",
+    "2CO": "CO2",
     "2 COR": "CO2",
     "2COR": "CO2",
-    "2CO": "CO2",
-    "GAL": "GAL",
     "GA": "GAL",
+    "GAL": "GAL",
     "EPH": "EPH",
-    "PHIL": "PHP",
     "PHP": "PHP",
+    "PHIL": "PHP",
     "PHI": "PHP",
     "PHL": "PHP",
     "COL": "COL",
+    "1TH": "TH1",
     "1 THESS": "TH1",
     "1THESS": "TH1",
-    "1TH": "TH1",
     "1TS": "TH1",
+    "2TH": "TH2",
     "2 THESS": "TH2",
     "2THESS": "TH2",
-    "2TH": "TH2",
     "2TS": "TH2",
+    "1TI": "TI1",
     "1 TIM": "TI1",
     "1TIM": "TI1",
-    "1TI": "TI1",
     "1TM": "TI1",
+    "2TI": "TI2",
     "2 TIM": "TI2",
     "2TIM": "TI2",
-    "2TI": "TI2",
     "2TM": "TI2",
-    "TITUS": "TIT",
     "TIT": "TIT",
-    "PHLM": "PHM",
+    "TITUS": "TIT",
+    "TT": "TIT",
     "PHM": "PHM",
+    "PHLM": "PHM",
     "HEB": "HEB",
     "JAS": "JAM",
     "JAM": "JAM",
+    "1PE": "PE1",
     "1 PET": "PE1",
     "1PET": "PE1",
-    "1PE": "PE1",
+    "2PE": "PE2",
     "2 PET": "PE2",
     "2PET": "PE2",
-    "2PE": "PE2",
+    "1JN": "JN1",
     "1 JOHN": "JN1",
     "1JOHN": "JN1",
-    "1JN": "JN1",
     "1JO": "JN1",
+    "2JN": "JN2",
     "2 JOHN": "JN2",
     "2JOHN": "JN2",
-    "2JN": "JN2",
     "2JO": "JN2",
+    "3JN": "JN3",
     "3 JOHN": "JN3",
     "3JOHN": "JN3",
-    "3JN": "JN3",
     "3JO": "JN3",
-    "JUDE": "JDE",
     "JUD": "JDE",
-    "REV": "REV",
+    "JUDE": "JDE",
     "RE": "REV",
+    "REV": "REV",
     "ESTHGR": "ESG",
+    "GKES": "ESG",
     "ADE": "ESA",
     "DANGR": "DNG",
     "DNG": "DNG",
@@ -16254,9 +20953,11 @@
     "SIP": "SIP",
     "TOB": "TOB",
     "WIS": "WIS",
+    "AZ": "PAZ",
     "PR AZAR": "PAZ",
     "PRAZAR": "PAZ",
     "S3Y": "PAZ",
+    "SONGTHR": "PAZ",
     "PRA": "PAZ",
     "1 ESD": "GES",
     "1ESD": "GES",
@@ -16276,6 +20977,7 @@
     "6EZ": "EZ6",
     "REVEZRA": "RVE",
     "VISEZRA": "VSE",
+    "LETJER": "LJE",
     "EPJ": "LJE",
     "BAR": "BAR",
     "2BAR": "BA2",
@@ -16286,18 +20988,23 @@
     "4BA": "BA4",
     "ADDJER": "JRA",
     "PSJOS": "PSJ",
+    "1MA": "MA1",
     "1 MACC": "MA1",
     "1MACC": "MA1",
-    "1MA": "MA1",
+    "1MAC": "MA1",
+    "2MA": "MA2",
     "2 MACC": "MA2",
     "2MACC": "MA2",
-    "2MA": "MA2",
+    "2MAC": "MA2",
+    "3MA": "MA3",
     "3 MACC": "MA3",
     "3MACC": "MA3",
-    "3MA": "MA3",
+    "3MAC": "MA3",
+    "4MA": "MA4",
     "4 MACC": "MA4",
     "4MACC": "MA4",
-    "4MA": "MA4",
+    "4MAC": "MA4",
+    "5MA": "MA5",
     "5MACC": "MA5",
     "1MEQ": "MQ1",
     "1MQ": "MQ1",
@@ -16309,13 +21016,16 @@
     "PSB": "PSB",
     "ADDPS": "PS2",
     "PS2": "PS2",
+    "PS151": "PS2",
     "PSX": "PS2",
     "5APOCSYRPSS": "PS3",
     "PS3": "PS3",
     "PSSSOL": "PSS",
     "PSS": "PSS",
+    "PSSOL": "PSS",
     "EPLAO": "LAO",
     "LAO": "LAO",
+    "LAOD": "LAO",
     "ODES": "ODE",
     "ODA": "ODE",
     "ODE": "ODE",
@@ -16346,9 +21056,12 @@
     "DID": "DID",
     "JOSHA": "JSA",
     "JSA": "JSA",
+    "JOSHB": "JSB",
+    "JSB": "JSB",
+    "JUDGA": "JGA",
+    "JDA": "JGA",
     "JUDGB": "JGB",
     "JDB": "JGB",
-    "JDA": "JGB",
     "TOBS": "TBS",
     "TBS": "TBS",
     "SUSTH": "SST",
@@ -16384,12 +21097,17 @@
     "IGNPOL": "IGC",
     "POLPHIL": "PCP",
     "MARTPOL": "MPC",
+    "DIO": "DIO",
     "DIOGN": "DIO",
     "APOSCREED": "APC",
     "PAPFRAG": "FOP",
     "RELELDERS": "ROE",
     "QUADFRAG": "FOQ",
     "TATDIAT": "TAT",
+    "MOS": "MOS",
+    "SAM": "SAM",
+    "KI": "KGS",
+    "CHR": "CHR",
     "FRT": "FRT",
     "INT": "INT",
     "GLO": "GLS",
@@ -16405,13 +21123,11 @@
     "XXE": "XXE",
     "XXF": "XXF",
     "XXG": "XXG",
-    "GE": "GEN",
     "GN": "GEN",
     "GNS": "GEN",
     "1MOS": "GEN",
     "1MO": "GEN",
     "1MS": "GEN",
-    "EX": "EXO",
     "EXD": "EXO",
     "2MOS": "EXO",
     "2MO": "EXO",
@@ -16425,7 +21141,6 @@
     "4MOS": "NUM",
     "4MO": "NUM",
     "4MS": "NUM",
-    "DT": "DEU",
     "5MOS": "DEU",
     "5MO": "DEU",
     "5MS": "DEU",
@@ -16437,30 +21152,22 @@
     "2K": "KI2",
     "NH": "NEH",
     "NHM": "NEH",
-    "ES": "EST",
-    "JB": "JOB",
     "PSLM": "PSA",
-    "PR": "PRO",
     "PRV": "PRO",
-    "EC": "ECC",
     "SL": "SNG",
     "SS": "SNG",
     "CANT": "SNG",
     "CAN": "SNG",
     "": "SNG",
-    "IS": "ISA",
     "JR": "JER",
     "JRM": "JER",
     "LM": "LAM",
-    "LA": "LAM",
     "EZ": "EZE",
     "DN": "DAN",
     "DNL": "DAN",
     "HS": "HOS",
     "JL": "JOL",
-    "AM": "AMO",
     "AMS": "AMO",
-    "OB": "OBA",
     "OBD": "OBA",
     "JNH": "JNA",
     "MC": "MIC",
@@ -16473,8 +21180,6 @@
     "ZC": "ZEC",
     "ML": "MAL",
     "MTT": "MAT",
-    "LK": "LUK",
-    "JN": "JHN",
     "RM": "ROM",
     "RMN": "ROM",
     "GL": "GAL",
@@ -16494,6 +21199,8 @@
     "3J": "JN3",
     "JD": "JDE",
     "RV": "REV",
+    "TB": "TOB",
+    "TBT": "TOB",
     "PRAZ": "PAZ",
     "PRS": "PSO",
     "PRJ": "PJE",
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksCodes_Tables.pickle
index a2dc7faf3a21ca75dfa34cc7d628fb22d161eba1..bd979d7f48afa462abcc953285f10df08ff08c0c 100644
GIT binary patch
literal 112321
zcmcef2YejG`ToIjIfFQ#&*$S1k~oBn#nCLuHV_CP%R;s+$wHDb7)Wxq4xe6R$w*qj
zBoKOlh!#u>B_tuChTdaBAPEVO*reffLJH}<_y6;}@9f>4B-<zd;EzA-cXoE~o#&mI
zow7T-I)C!@CA;jp3;#QJW6j8{!OUry!A$>}OuM&kb!KpJ@0#I_IIwJ29-W;#+OT@{
zVCKx;^l<M$|HhG$=BD<IBe8+O-nG5`>Au!<|5`7-Hq$uJlfl94>Vb_Tq16Ker?;oq
zAtJu@+SeX>ZPV7fUweG(HCyj_?Xj&FY`uBwy&Fen4rK=hhYL+lYQ`^SbS-Kvj4o-;
zAl=CFuBBb$9hlj5*1%xTct;|QjZLlQTi5VlZ~xkjBfHkZ(u%I*+QvPf2MW)hG!H+R
zv7+n5!swEDjGwupfAxUZ-$UR11WM-BE=Tq(>RsKJ>FFIV_*r(=$jsJ(wF5)r#}-P`
z%!su&b*rhuW0oU(E*|vOr~9^feD<OZ=cN0Gd;2p5ziuCy)$grqI(vO)&2XltF`HgL
zoEaS2I5KI$yp1D?^#emg)ZWmC*nX7xnVCf>&7qC$BQd{NoBG%G^$um5y<V32OcYOM
zsCOuNXtFlhHZYWdt?=-M^}TD-eO*XHYt5wP-5b4SlTfj;lSfLLPF%h*JJo7SHZ&4O
z#dru6<M!8{-g-SMM|QW7Nlj;O%$AN!ZaRCQXJa<(2O@qTI<jls#%v6x&K}s9jgL&4
zhuy>o$^|R~>yScuc7C=3|5uv1q&vIHvAR7wXJpd+c^k8H+p{$z5vJwQjXLK>HZ@|p
zOPuc3rW1m?V_UC(?a8e-zxEg^_+9Ye?$@5$dX1`Y%}{+wYvxRfH%1&Gy<Vm3QA)?I
zN(U*uUZpofdNZZd7NqOhkghc8b%#0Wvk=)k+`C5A*N;{|*{N?|(H2ziUz)e$qP!03
zuYK)FUZ|?S-BbOjr>b8G{YvPculjY5`mw9}LF%8c`d2~!D(a^#=-0EMUupX57drhj
z5s3zfc|U)&`YBHR;-(cr^-*eu-fNNPcf*65x8A187Y}Q_S)B0@K)ta5>Wu{;eu0X|
zuGJgts(6s%7pVAk5WkM%X%6D`Y=~Dn@$gpb&1_oE3=Z@UtlIzw7L0aas&k-ac~_wW
zHzU(Gq6$5Y>i_AjAA9XdI#ALwFr*%US@pmI@W2A_0NI9`uO~A5v8x_{^kAWSa6UXZ
zA0F6ga6wOp3rbgi=)$RJwOhIxHl}e2lrae}4KG|^XrMnia9Xn6>))8W7^eCDEN(9J
z=N@=+!PYzB)lK;VDQW3hYyNl)phQ|UKz}p<e^8C-50BFy?5aN?{W(nixgP#pum12f
z`a{wm4|M+2`u;R8Qh%m03A9H!?IEYVb47PhduZ$3D2Gk1>FGqxK-1Id4O;<N0D>(5
z!H270?3!Tgs$h_U4_CqWLh!w;LNo`xdN%YbsTWs=)*olqZ)>JIiCqowCf`QR_S;Am
zdJVeMTa(t<l+<>mDR@e4vMa6E>tw_r0L2!7;v-bCp2;l6t||tp_y|?J35qu{i}f@}
zRzh-Z7p%Ej&n#wZxsRsiW%^KAYLm;*x%LdKvp#@3fjr+W=Mb9a9XNEYUIKN_p}L$y
zh%tvO5FMFRi)I^@Mo)!D+@(h(JgS{Xk1V>v0KfEP_@#tjb$P$){Hu8%P1O9V3;Ja{
z0l#*4el1&CP*AhbjXkvWRy0eu*j11#re(dZn3gena3$1gfW@Q%dIeMPs+OnHE9|OQ
zAicuSLcPK+y#iQTJej3Mvb2`vF9_tgmR6+|5zD7O=#=dQoGQ&ZRZv*tICZTRm2(QY
z<D9DVow5L(f+-f2?-X{`DUeQSPi<$>Da5j<oKs2`Rlq5<)aH~c5;!$K=#=dQoZ7=V
z)wl#Xmal>PqYGizjS;GjPj60c-KhQfQ;1}*h(0A(c#UWa^cri-4qD-9fQ6?4`dM#<
z$5UB&*i}D4`l;QzMbl5jvha8^3y);sk*+nv#pxFwk{IakUDKDbE36|unC|OcKd>&-
zk0E)kbqnYGL?%wuPgkByAAZ&)eLw4bKP^B%ajmdCc`E(HuKEemPwoCKntmdd<;jzI
z>5(i?QvIA#zwn@XH1&Rw7PwlM+=i<&oU2W%I)ko;(TzT_^#(0aHx?^tItK;Dq2xJ(
zXeT+8)BsA(0`v$~3Lfd1^a#7^5lD}8OkmOU2(j=;PliWIc%-zFV<V*fYSXHA?S~RL
z$X>NJnGX#045o+jWfyS{wKpvZIuzY{2b{SPPO(+F8Li4j9p<##0JA-VY{URl$pISo
z>5vT(be9gfAp%K<bckTlbO^B=r`b4De*=G%&L7m(0)NVJFte^VorO<zzE22@@@b}D
zNL}4QpTb+Ofj=LGKlh>=yIcKfLRPShhFqU(0hW=*&?OrsVBcz;8znHBF6k)2&Z0|*
zg-f)`BI0jYL}Wn`)gZE~c_X(Cx^3K;LFYD=sb)}Z{7yOQJZV|JXtXD2CeU1P6sK3v
zq?Xn61j8&4C8I>iDCvfc9dwr^<Himo-O#avMbiz$qN?f1@Iwhdl;+2LT<Ln{SfsCa
zmebn-w*oCe6giGDCz`ffwdL~%%^jNilZfz$B4VIm8#;6h;o_lSH*_E=SceW4O~Hso
zzS9u&>TjxSSLIHtT`=#U+68EZQJs+Y9g8rF#<otk^}3y}+XY$<m9WsKql)HqUmqrv
z{oXoMITs7pe1BuUzn$nI^DSRQn{k_5-io?*v(~i^YY#dG2hP;?zyhdi7J$!nHn_mP
z`pjLn2PAy1bAt=+!e@d$!zz8|Z%{@`E2Db)%P~`k31kLWBX@k^vz_p!#>SxVFy@m_
zqoAHZK|SHmh}YO9vSv-6%5KsCFA)t;HWG@VF0a9vC@Su%Y>=|u=z-Cc4e%1dxx7U9
z8(t!$yF~n|wI>t63_m?Ito_gN1KEMT3@=pQi@5WmtGzks#lE>4K6hK!iu*sfR(J;}
zIA!ZXj^Wzx8o&)2w$B!TV-}!ekOIfLcmf^6t~v(NF*kx>G#vxr7_GvwE>5T57;Kqi
z7?f*aG}1aJH(djL1M4u)ITRs31_M~^H}dX@>va7vf8mD%<+!KI0o<Yr=0F0C!$Zi0
zC*kzR{05vOc&&&_VE|3VQeIkUDwJp{l=Qk@z1CfNja~H`q}Ogd!DxC7z-yX>*ZLcH
zt+e7?h*n-5pNdE{-TBf>IPEP>ok8t!-q}DwJ(TZya>`q*`)Oet$wrQ3BS%vCd{wTy
zRE}L$4pO-rAuyWC0Vt<QDA(UWxzdy`sPnHML~6H_*S?q2-rCR>)Lx1%2A4aA;C_eM
ziah2W8Ji&)p;-5+*hT=lOT}&kKvJ<A0dSX!0Vt+PDAwOVv66~$=Rh-hE@CqM!+PJ8
z)u~_?)o83YWzL(XRZT%}Vp@wh2;j)(E_im$)>~PFFzC>Nz(^)@x-|+KV56V`dWLdm
zqi_yRpl8_CvH<Cs8wxO*o&h?xvBFUEa7}52F&|x$dN++J^k&c&`K`d-PW|GB_Cod7
zy~Yvs9UM`=_BcXL{iMZKCX3U!G*OF`C=(@>TaT~1RPK6wlFD6=&s{19P$o2qGSS~a
zxKf2rsjWMRV^QmP7NeoU(ROzFi`yG@+ihJxep297x$|mC;q9BqR{z$`<9cmBsaNz8
zZOTfPu+f1>N_eECN60*sh3?WL>}pwn^vHGojHX8bJfcZ>q`!ejN-GL=hyBVFL}uW)
zUl0{ea?A48U_q4Pg5WqsZysp%X&FHAq3LZIU^(*Mj0RABEI`TV(IHvSq-5->WRQ|w
z_s?ib26VjQuH^v`nqka!Dkb#?u?#5MCE;tXbebF5mKSRN7%t)4Rrg0ViyLqw0FoQl
zSsuFpBwGw5*P}y*WbA8==Po6akX-M2Z|*`efn26l<g)$-ij{gTZ*pqQy03O0r*`?G
zhM?Lg8hMNZ(cJTfYJRl7T*riym#<FS&1?%mvjwOby)iUn-!x-aHG|abx^A9D%>Xph
zDm3eFpjoM!XSpks)(cwtq+c;m@dLvozhd0sx0Wa|T#}dug6t{6xlkk*qG&YCS~qYq
z>IQdJG)U2|TV^yx16nt5GE{2{S~sw-s@?4{KTSWY_jQ`vmNph@wi$Z9g>Tc_D<y5c
z7{TD$Q{viFQY<=1h}B(+#jc74Dc1F-jHXxsV)bN*RYI&%#a?e&JOwequC&UDZEsjo
zDE1E2i5uB{y4%$4C}(s>?UuVnh}C_H#Z>~ac!p*<i(M59QmpGhc^1V2s17s<t!e^V
zm8!MbX+;e0=ldDEpVPXeVNp<P6tm4ov<}||wN!kUwiQd#T8T@PY}>fcwvD7@bc&Fy
zyUbtgs$`IoT@T7=N(PX>dNMRCp;;N!970U`^wT}`UB2vUCwo;>N1^Ob;*z@)*~|%Z
z?$Rq+m07Rt1*jEyvITJMS%AvX=|Q=kN#)p8<sg;29+J^i4nVn{4CP8FR|b_&M@$x7
zNw9Xz$>n&#Fu4>t{^ZsV>EoB1U0!3Li|Vl?4QgJ4n%5u|qqEbz#x50OR~3U)?0QB<
zQ!$`<jgvL6LCtGW70<W&F%_w;P2(c+b9(<=P8VExQ5}Wc0?8a326Gx09$MyAnKgb+
zGoU%m0Cl5F)11bc)Qw%$4N|x3{}@f(faWw#)|>`4r$Oq*Y!ek<`x0dKnrwQoAhYK>
z^=%CWonREB*(WipdI;U1yG5&6-j>#`utdq`gZpegNJ>Z72I;y>>DX22Af>y0kkOP5
zK)Rj`=}Jgfs`Qfi2cd<raTH?HYqEiSugNLzW)0sh(|7RM2cJHG=eQg3uypUuAKv`%
zmW$tb_MznFTQ@(v`6>K+_>Jdo*!<k)XSIWD8`ffIOAjM}KHUN+1`EI!KJrvwZ~}ap
z?>ZYs!<YH<+Vw6ocj3!I>uhLMT>;e<uzF-tTlYqm1jj1AH^aDfa+cPjc0Thx!1tze
z**M<p8T96j&pff^g3Zt5J;7y<3e}b#L_j@ZKs{lAo<JNu;VwOKJrJYmNv-n)yYxhR
zph;~wS3MbYo?xGzbgC!38D`@XOBNS{x{-2jw60jT12=Bj{M?pHHa`PrT!FMA0l3lX
zosI&88y0{Y7N8qY1~;&8ZlG?kaxt22)Hye>OE<J{nnbH`Lw|z;QNoSZ6;>eg;RYY=
zwJx(qdoD5GodcaaElXf~OdZ=RUn*~GdTPt%oA2NJEdD*|9BS!Thgt@*2<WJh0XSqa
zbO;*ZPz&Q(E>NQmA({@=w_6RvE*-*A^k1|JhhRg?MSok3{pCx{BNU<)jHTjxa**?+
zp%GPaj3-r_??9EhfAeQHKfd|tEf*%=*mT*J^HD$-ZMk^M$mUPOHM?jU(5P@!xn_7s
zU9tdNvH)FzO1Ol5a|u0|x`b%DG~c;|UAm<G+ay|rOZpp>krHLp(3rnyf@QQf6T?JN
zfe9imq+|mYWDMi(Oa6j7*g4#}ylotZ_ol;dJo^-VeeQnvw+U^;gRGKUF4X3s)21k$
z0~iXRol~NnQ_@W+hnu>~lEdYoZX%j)E^uyQmu_ljIEg0Vrv3(QD&b})M)GW>{VQrJ
z4y5}7o*d#lX<Ux79aD7s<~>1md=AC<H0t0}zB9?q4{O6++o%rV>1X4>pq3qC5J1^k
zfKEXIoYGV26naE;3ej|Gp>qnmbjtcmJsDmp;gu5gv9@uPTYG5Az5T=4-U9Cq&3T9G
zcH-VWqTbax@9;dvd50MD&I0rfg5jN>O7GAXt9OW|cZWIeuuJc(SJji@of6(D;a#2Y
z9WG71+V;?t$9gx<dDm>+>!?mD5h%OsPys)^`Ti{zqua77*ldGe+|$)6s6-W1(jQ2K
zKe|hQTvy9z`g6GR2fOq~yV^-K33v22a7T$M*xZ0Bh;<O^%5=oyW=ugL)jBttI?&3D
zDWu@VwCScTmu`N1%SC?u)8c93pb`T$C9WnVTv5^$sDmrI3s<nh%8CZjbma)=3U=Yj
zVK|CWgPsgul<-A~qEU%?XAsSMvcc=A&N<Vuq+=Xsv?;WfVe=<(Eqxjd;`wL{pB&{=
zM|Qoog&o;mEuYC2!1ZJSxJ5tUmYzwsaQU*vF&b_ya03YL(k&c?TY56wf)Q=sJF>72
zw^VFyF~sgnqj&xKLdWWJms0CEj_nhuY-lLp7~A)YQ0*SaxX9{UNu%BBFruV%A0?%v
zOHc`ybeAsSnpKw&O_$tAf@jes9ED4IGF(!kq?B-}k@sD4F71YBE~+ais`<{NZhIs>
z>hh@xcytphoq7Ym&;UM-0h0NZYXQ5p5>Bg4cB4vY|24JN1tTN5Af1G6IEjPWhb_QG
zu1+GFPP%ah&!Uq!3MchsIH`n_wcSVoPS$qgipkyUoZ%8r_u)Bpfu{>{p2F;yE38;g
zAF<ZZd0H3nv@Y+dAEc)c4^I(eo}yb;PZ3Q|-2jAV(Ni3Sr+P9xRl?Ic=V_gJ>ZZ{%
zT;gLrUFdsi3qnSfX+@w+??fqX!uaDUj7m_Z`GUlyp^FT<d$o6-T&n?gWg4Jk(5gj<
zQ&~^Z5vyZ}rekgx!n5cYj%pF&WGzCw^lH0dU5jvOuz5rg_O2Tk&Thz$H4e+UG+yCt
z*CoHikfg3B@Lj6&U9tdOf=VqboJyC_4XaCtrb}+f!L#TRj%r!qWGyRD%gS7;>s}hT
z^roY%M!R%)&ZX{g>SL^+lpaK<<)&37-Mz!=3FzSpz%4Ns!YwfuqA!pKU-V@9a+vc4
z(e%ZQG<X($!BGr+yI~lv=x^YP5~b6<6awd94XAcrej5I;_Xy`k$C9>j+$amUVQu{b
z7zncYcvvr_jx4eZ<6Shu2w(_r0d3<MLr)+Mp6HqM1l_Hc3Zm(W8&&WudV-@U6+IcQ
zDB+3{uBga4S$AJD#5O*IM{fCg_73OGlBPxDcvH{~-@N$|3<V3uv?WV2xCh1iB_tYm
zB^q}neStjqqPz43{jK_fX!_zt6g-Q*;3$02li`aJz9`{~O60H>ZHJc3G#nYsoP|2!
zm(7vRn-+U0HL4+)fhiUAKeOek&5v+gt_9M<wIJ|72@jO;KuHfE3LfY#JXnaXRXsp7
zJ#YgFo&^sM$5D8oC&Pml-bI85N_f!H&=qL8_dv8h)@@0z;hF{CiKF}q)`UK9OuIc}
z^BtQ%g*ns(^dQ%Mbzp+4?N>(zbsE*GRs(FmGyq4a9FAaLFLvHtpd*ZiBMaTofxC1B
zN8yN`3`dl3L<vV~JDLKHp#MW6Zq<g)+25ISVZ7FBlnbuCaxP%uk#nKWcfkU50jl5v
z_RR$tR~HaX7u-;RXVC>5g$sHzTu{OVC0wX87u-cYO_L3}aI{~Q+F@=?DMW*_^I$>P
z41H=X*74dLeM+r`&{(+;9f3BM1<z)sLXB2O5KTwiaDZpg5gcV%xM@19Xr<D9mPHGv
zMgF7DT*`iJIwt1_tQFzMBi7$LKkD*+)aCqeA^HJnED+z1`OXhS(+}6#^DO#-qbv~T
z2dr2J!hIHq`Qe(Xsea17AIIkWfVCq0cvStUcYf68{ix6R;X?ES(%^@l&GJBxr{#fY
z`r-O^o<%=!6n^N*s93O~e&{~@s4w)xPucgQ!S`b^E}=1g?7=4Lxh+?2e$1b<VVN}^
zU7^PSQSEutM+3ODEkOBD1o?U<<)f2R`G}_c1vc5?S(J~Xkgq4RjiPzBQDilYuAs17
zmr;uN4DO5oZqb}x;ES9Wo%UYFsD^fqyV-*Q^ZmHhbIF#=+%2H|9WB@VPU?hDXni}~
z`x;8LzDjxqvG7cH=@~jb^$gMU%=PL#i=N>qdUcwFWBMC7rsPc#x`i92xD2%SI2;Eu
zoR;bel)w%b2;k!7?V$Aoc$H?u`k{<2R~bIU)gr$vk8`=em26|na(c~*{?q#h&gwq^
zRk0mjh8lW$uvBjtBjd2GbZZ{u?Gjz|#vmL%!iutK2o~WmXQt|~bvFx-z_c2xt2qsV
z!@NydIWoEVbX{)Oo~>&4@6Y3B_Po6bD*!QrEm&k%(L9*RoUTeTgK*Q<+$C!?8e-v|
zzBJUFa}TMGsjAy|ZyJ0xS0f|&aNfZN)-vD0_H0>uw!A%C(Vner&nCC)h^-m4)q;nZ
zBk3Nz?}cI<N)8YB&g8wy9SwN4B<C4!2u>ZDftTkFN*3PjAG=m^OcCb&8sEo)LY%md
z4Z191UgN;J)p!EYleE#!q1!0DHSV;4mrI?OTys%G`O%%EuG>KEL|B99wm_|%?Yt5f
zr>$aQ<sd6&Emw`R@No6nAnpiYbRnYMwA#o8D&w#IaCOqwfS^vgz?eGOlJlvkI=Ky>
za_&XPI<=jG8smqpWeKig8Lvu?acaCOxh&_{HmhU|iyOvU&%=uO|HV;Tv}4P4woxy~
z_&QF#>~O9wY8vmRQbD^iQnH8(WY9w>F+NwKhftzD;RFcvQg_*&xE_MDRrC;tEp!d0
zjn8>k5PhGXoNs10J>t`VMXlYsXgrGJ$#j2Dl8*tfSbVLUFfDGxQ?=ur_^uUQyr_a|
zLj`+SB-X|GDzq!1T?y?<YKK^8*IjCdW;XV`c|h$8oOZjgco!Dh_2jYIyU@<_MY3r)
zp6>5YYb&mTJDuQ`#oap;+|o0wf|Z;Mai5bRl7i8%K(OvYFmC~C?*wV=jt_T&Z2-<^
zfgEV?w|T+A#}XJ+^s+ZZhoe%voYXd3$F`lkWtE@WF_>(#6>L*F1~r7%%7q}7699<S
z0}#vMC&h9&4Y7yUn^^9mE9DKT%G|H>a{a0E+>XKY2K1H~9Kc|D2rt{Bl^PQnaHiX@
zC`&tcnD1S^gH};URuqyIg@h|dKszf6cUe*DTtz_+v!c|xe8*WF6#%R#JUQ>k$dm=O
z2jv!Yw&EzBeY5k=Eira)v99bL!V6_|bWx^1$@6elKC&e<gqK~1?Da&mk}tp&IiEXr
z;4=!aor76ez^NF_T7d0wdp6#lO>C<fZnx3f3`-g%fP1`aJq-E$N_2wL&~0xFY^M_8
zP7mkZxImT2cO~*&iF{`TN51PW>pSYX)^}XDtnY`pe8*M6d<T&4dU7D&ZLtK~m+nPf
zdX0v0O7Adom2{(Ot^X^X^p#7yc94A|B`6V<u7q?Yq$_!;qK-hi?y}0Ds%YB+k*qTF
zoOG-Gd}<8odUAnu_^*TIG8|&92-XC*d^?}>Cp!5Z4Xbt}e^SFaR6h-uaKkxiR8$N(
zItDF>0kI#XA7~U=_3KZvs*ko&{XiwBAM>3bC=nI`P>D7W%gMX>wpiX5|2n=nf5|d6
zEL_R8^!_4rw)*&WCX+k~-xye%Y{O*`ywv^Q<(I9G|BJEq8gcur2j6|jXW1&3Wz9`m
z;-ltK!Mdw62s~@Wt3EmltknQ-@Mr)z#d|i$DeP-bvH8>X&KilsT_eG0ws!!g4))_f
zHeuDJJ{X4{b|)?VXp`?uAs5_k?xiYy?+Ed^_p5R*CDr?HCn1n~JE`QDV~#-|db0Dn
z)x0jjEQ||m#=5I-HmSRHzPlEnyQs5p7yITecGX=thKg}`omC9ZcIhqvckRb{cU@;h
zk68lrcwsB1g#Au4Jo8_!LeTdF!TI?U5Y*S&QX|g0Q=E5As~};!BLwZm{NIP$(F{(R
zZ^mp~+H?*q;NopSWruIIeBa;Al(@(CreM0HORbR)ddVJLID2*PzbOJo)D<gEJ=B%W
zr2B^5I&A0AsX2#m@!=hxZ57wl1uiShl?6dpuw$<9`pvcND84aXWapdya<f*L?}!^+
znckIChce!tx`hSm76#Q}$JD_@p*mbV1$mrPXV#$3mxLhVMyq?bQ`dO{=DRzp4D1o7
z;ZB4}!=y47F1lZg7T(A(OXwOqx^UgS$B8+it5`87^bY03<ibUZ*#keZfkL5<9;c(V
zWk))&jLP14ncB3TuWhg`n9{UfL%3R8h}{J06<Py5o86sVG4uE+mED9J?6EUpH=(V;
z)Yi<f8p^i^{!E~?#Xe(DgHv#0n}Z?$oe>ms)B0Yn3<}2PTl9?cZBaw#4hkF-4)%PU
z+gJ~1L?5pEbP8U;Dcz-0u8CvUPN!TGN7v~TfIeJL4tRuDVzfbb9?isYPX~UrNekws
zpO!0@MLUqL4cB%{MCa87rIEYnN8RM%A`vQNhOq%YcAPvv3)2KAcl`WM2F}Pkv^G~3
z$gv_WKDNM<>of<g0Y+Hcg+;Cb=DJtE0iJXOYf(Y_s}nlQ?nQO#3_fa*%kV&}%fYpl
zLtbmv&wP8aA=np=?HSQfXm8Q9J|MQ$7t1D=w`Rb+SdNT>V)4O=0;SdYY|kkURP@nu
zdvkJ&&f50uIGLKO6`15;uvs7xeLS)lD)GYVq6WUI+KSBKYr<8zY}In-_-nL$=B(?#
zBv%b^0TodVMkd#5wxTjvpy&oKR39i;m-^|s)KPhgNL?%8{6M)Ptd+14IbGN}@s2>S
zOfe-n2!*cQ|H<?7HLu`R{$R6(i%E}V?2`uR<WhalZ@|NW&dks-&t>MW#CN`ixRb92
z&bvP6T}x*XgB@3GdG}2l-lFrh2EWMP;te##zDPeRQ0nWPvW~8nqVs)9$B=%dr)Xg_
zI)*Y{&%nX>Rc3vbw|jE6uHU8K#zm*amAhRb+n@hpjXTC9TEx@a(rebFS7$PstldHx
z$fb(2wwo$ih&EI#+(*I3!(d3eRzxv`uGNLu3)v)C&t@;=Cc(UU#a_rwg8As118toI
zPv)<K)33l?pWQ9FQM%XXbnmD=!I;tM#@E7p-H39!U5FC|NI~zZXHz%a-~@sCsoUMG
z;;f0fInYDnKUTMYLG5nIjnaKaPWO)57Caery78SbUpJzhZWp3%>-F_)=%yR08~Ul+
zJp$rWNa_Zlo4*d`H@?`URb+QdYn150oah}jNmwfBMC0>dzGy@_(Jn;M(1Fa>vnd+c
zNzoJ!(TBU+4SYgJ(K=0^%wGpZqmrO(Ot&RBO7~DsH&WX{<zAq=Iij9|pwsI@MPJ^#
z<C|jmZBB-3^oD&M$M5JOv)f$Sq}R4(&cMw)9T?TNA&6{R#A_+v1!6XY0x4|L^}Q#}
zlY?>LWX?#h-jL?~2wp{}r*Z#?J8c;Tt%c6?OL|?e-eYiby`0<~U0VUUbpg3`zFb~H
z1#(&Y3VNU^b@LA52M$#60k~xHih2Evr?_o^FS6y@%`<aqcXUMs)Yb>o);qP0yl@KC
zjvcV+2V?kB?4Gz#@=|%#nACu<vz;)0I|H>(zqmQhT?^~vifhVwi(GT6!hKnTUwlN-
z=DxI{`%5Xp9?5RVY0#p4D>US~6aSkZnr7W-4FM77<V0u*y%i$(*%-};eS#TLKSo4A
z#d~uqv=MttRTN~!{Lv~-$d||aaw4=vdMiZm_Wjs8v0#*lfQEB@4P82I+r9=o;uvbn
z4EqgH#}IzQ_PU@U8Z|@1NP*qDit6;s2YOnuAaignzc%WB7=|qozV})X6ZoEK{<P-7
zbg%y_y~LJxABY<i=jB`}uB958f`MTNhCdjvxDfjyT<7SEI)-3`zM*KeFG9w$FLJkx
z+0C*q0{Gx(NWYE~m^izINYmBfq#i{ZWjf!V(^<q7FtYmsPW`$z40dphxb*-XL--|o
z0081@xv0^ftf3o#^1^ntWI^uz{SH{_O|S7Yvvxt<!L<umKaRsEW0PqlHMjw9!1g5z
z&%<&SH;5j6DA2~8pL48h2R&@Q@tq2{@GKzj8Gg!a$0e=Vj?!SZ>(flE@j#ZN8__J+
zU*)qr(EpbQw7MFH*+<}sgX`KZbb4DGun2CuBZ9nM+%;-VW6hQoga#qE(G>(g=i(QH
zu9?K>3g_UadtRvjFd^Y4omh6FQ&61NyC&ln;g_^)mA=R+TyE>VikjC?Uf#noy$M|2
zW79v@YRyknXXd9q*|z+|#fv*X_)$<KauZcsFWTK{4;2KaaEkw+?BZNmPay9)27^V-
zPyH0}ux@7lp-Z3$ZNhSiuVRPy0s|%3F_@b_;yULY!tJT>iz}L!5u7iYj!T`6m0jp#
zimXYKSK=w8Urq=YCu2r#Hf_%^1DD?ioQTHd9Yu?n-n1Ssrgfyf+!fe3fL|ArA;;x!
zny~)DjQ_eBS5na=Dox-f&^As|2duVVmU94?QL(vLuP@eFZAZ8`?R(S*^#&wd?j$s=
z=q_3U9ym66T!~;J5H3!{tbC2)@9}9!cMHIB;|eEb@$%wtL4+0$46d^!swQUf0DfFd
zY0l&?^)89t;?ecT=&?-7h?CN?qL@JfR)b<lZs}`~Jr&!Zg5flZxUiGb4`OJG6T+|X
zszLD1#Fc)zv}<#-gJB9DV`2*9ild)(0t(op<Q3?kWt0G}h*SZGH1!X-+uVMr3Gayx
z;N$3{mUZgkz%_VPPA6;?QHA*k5>j#7UP;N@zk}meFks2~=%lZ9Nq5>8Hj3&iu)cM@
zpHUiQUxsN#Afqsz;DkFkPxIf*tj13U2hg=*F+yhTkUrzpfW8jholY|@kU7^lg{_OU
z8Wp8*GHx2WvMefN>hrA<f0<sbsshbWAl45CB;Md8Hn!?Cttg38Y8&xhjGv9z+5Q!W
zl_2PZwVqAKJIMGczBU$+aAQtFaaBm~<<|uzU}r}X`1M1RfER_wNVwTaSiE#`QMH&7
zN*4EGnB!U<2DjJh1n%ff!|$+|NQV|~T=rp?Jil*V%tfR*z)zp!bl2<*A-H`3{C=H2
z!{7(r`RFL*KAw(W=58n4l2cNAjm4LchO#)_SAyV9D#0&vN^bR)@ZIPl8WzhFd`CT>
zCp|mP6W&qa<FpohB;N8wzr>yl=E-e2B@@XL*vaQf&yMqCTS|g?a=TN)rBTJ^$z&{>
z!r4|h-3)HOaC8{VEa8eUX2~>Le}y0B%H|_Z2bWP6t78h5TJkMd6Vf$=Uv5u`|7@8H
zN2y{@w^B2?`6;x%{tgZ1RNdiJEyg<+MXSOJ+`OvA{X0;F%a~o}seH!fug)&~LLZ;E
z&34OrRjLaYDE+8Y$|bZ#E5$O~ywXK|J5cK9A6E@C{|+9zO4qV-ocIE*_d2c3OPY$+
zTFl)%*R9WP9vE7W^~3JTS@0D_U4wC-pL%!a+mQN<eCpkU-mq3CTl;appKe>xt<MC!
z4(HRw*Lyaw4qLLH$|c+QHn=;pAlWtigEzU9AMjJ|Uimhp9LuN7SyA^{nZ7e^Zmp&K
zpr5#X-J+O5$OLjbl26>e+K~79AwOZhI$vBTvvUb|XYoy$p?ty*`w6$KcpDN9)a(44
zXqwZH_~{nEZejus2d-ueHHY!}WqkVoti0Ecy3`w5-j1tk4(}W4%{-marR{a$Tx4HT
z-yqJbdCaL<+46Q=Y;m^+7%iJE0>>W=z(S~e@}F_ZcQ+J0=A1xL%<RU31Y|+Ku1aX=
z;k(s-EAyO7xwYZ#XwqY?y{GAFFD9zXg`0xc`e*$*(1j7jTYkyaGz<-S>(=XQipY8W
zGhaGe3uK1<?XO&JJnxr7m(H}`;>IUdP!7TSd3rs*;3tj+XK#IOL<$nu&++?p;BzkF
zwuYi_;7y?R?Tc=0c*7vq!1K+ZhM_f?{vp0PiZTg&)?2gS^L~YB+R-}r+%3%sC^;y1
z{WER%EojsTKiXe#ng2$#iu!^R)wHVU5!wVq&GvO@XNXs(@F)2AYK~txFZ!vkDEh|c
z1X7>g<gLet@z>eSHye0-(WTg7f4%H2z6kcWbw64He%dGlw;E_1IbU*ePOvXiyv1@N
zSZJ#+z@kPptQ!nAjW4-`TX(n~b!RGLV1aA{JA=&Vdo_M+zAC)z1T}QN9oK2hPf(x8
zG@YGUi!W2;6Mw}|d{OJ$&^qm|i4Uyy`hqp_%YK@jZ^xB4y<u=Ty&iv`BQO^Gic7Jv
zwe4;2awhIJ4fOD8!zzisHEz|LU3HsX%1v)e$}^h!deS}G0JjYwlrPsUF5M-3%l|F!
zgZEm3sy#5cftNcQxK4ib7O!x*+uPc{zUmaTcDx<)y4kIGwyW!Vm_A;5!#C)L110`d
zKi@mvj(R<dvkZI2iQBMv@;ty51b*B8HJ5gG)7vrJnBJX5Z5z-}Klv&C(@(Lx=-vc3
zeQN7E(!+yxzow`g(fj2F8@Zgfc^)2(VU<IAa7{K)1po3yP2iSisS|ZbcLV?CB<~~@
zr7W6L#wv;5^34c8cmACdQuGLHWRIK>y!0s(P%^tf34iP_KC=elKRGc)&k08Ixq@3w
z6VOsPIMm<zdGg<!jOJq7hk%S`HZ?^TPN59_tuNz$IT=OweE}Iu{pBM?)se!I!EbSk
zp6{7BEp5B(niEs})5(0%;1>A=@?=&)HNkJOS~@Rf*SwUIcA|K2M_>X{3a=gBO$aEN
zlvh%8LmIev_}73ZAf<3hYd`jjrzEeWz34p2U&ifeW^mDUwy?7B$HRD-oiCxuc{N3M
zZ-JWI$-ntqw3x!mg5R!ougtQeZJUyp(p7ZE<m+u0Kk&GdQt;bM;1*-s)V!3UXL^BL
zS;dd$6)mN3-i_a4l$oDlwS|2xEiFag?;I($E72QjSvjGK8~1;QJ3(jR50WQWrU#QJ
zpiT2@Z^Bp8WjEP(@M5!jF=X<R%wX;*EZ#)j{sR?v!##=<F&Y}|VOK~4fxD7zd*yZL
zP<X;RifU^29xDMu<NluXaA1VkR+iVI75DAYQaO$m)LVSpcNkyt%8yst_Rh;Wf!ER7
zBd2T}Ic~C=uPs%+l%>r@58p?oE?wK-G@(XrFZ=>8cVph-7VP2YfiF30>#|>7O3`zt
zk!dj8mR>uNu}ax!E&TmxG1Yl7MNb_^La^M8zfy|@1Vy(kV{%3f<US{?IWs3OruZ&^
zg`{7lFIq}`bjAd}U9UR!&+C}L=pR<`rPYay6Dmgw;Up;Clj&QZ|J=L^nwu9?e22tR
z>RPv9LJMQY)EPC9_7|M$fV-_GucqjS0D3KT_)B<;YVu;i+`&&btVs{9&tK68_$oRY
zCs0VR!%Ut)#ogOa+P|dv``}m1wS-c>nzoMO^JE(D_)aiW^d_<UdXBFwpD73VG8Ql0
z(M*|ZaR%^mp6eK=U~fXr%XIxgCOB(uJJ?UYVFI}@9k-Q-8u2ldiCj7}_#^)9jJZko
zQ-54=h_B(e39N9P){$O+9PTMkpkB=4`FvKSGk5&n|IUuqheLf8oy&{wZ>D!<`f&d#
zGl)L4_|^<R>OI5D-@5TF_!%<KmvY?l<BJ~6hK~2rJrm54*?x|2n8e=?rVDDvLSIOC
zL-BphwC?oq;$D8erRW?v5I?b()+{i0C`k+We0~~#X&v{_1AF;P=NeyK$Na^`X4AM2
z5b$0C-#!Sgg>>V{SVvzbojh$|Fu53IhQAh^?q7ouXli8g;;ya*n0Q?4YiOt|dbGa{
z4M)ryUqe(c9KE~825psF(BLchkguR=NzwD<Z7IO&tnqSTR?`q}6JYW;U@!J8*|1J0
z8NP(;d<hM8Mc*~pmV~-(NGQyN+zj29u+f*Wq^{`Jd|MLgw;_RU`&|l}ur%)e2CKsL
zzJ$iMqPw?kNti#rgxKQrnY}%@I`I8Zw5Im<dr-p-zJ><0Y5$jd-uBVi@hZbil!X5>
zk-dcz6mX+2pt1NCWBg3Ow~V$?9j7*;X|S&u`o({fpKJ%eX!U=%*N?ZZ#=K|c+JfD3
zFMa8<Nk8eE^GO$dYjv9*Z=>qvlSUHx#^=OI?rvQh*1E#$ahK2IV~4ye=SB_Vrabo5
zKE9`A>;IaY_;uE%6PIJ#iVr*E-GLQt*e=E+RIUO%O5Y51&p<l#4=iWwTQUVZ-2;R8
zs@kDRo~_+)et7~vE8KRf?@CwUpN@{=&vie9Kk3WAIg3A4j6b$)e`>jlk25FYlfD#h
zE_F5V@7#Cc;~{ilDolBSKb+jQ+LyAdxgb~h=j$KB-zs!}r*P|S{FwNpWw;?WAszf2
zo#|MHzf3YxvTUj8n6j)Ff9IUVt8ewTt@UMewdvou8@F&L^mx|QZ9fxOigb}#;b#ct
z1Vxov<{X^Y#xH%h_4(Qwm*}+5*R~%%M$5k`e=RcVZvM${`$O~itCWbezYwdrR)SSR
z6U;VUTz@K8q&DJ@^l)q0wi`_0kKC;B|0tW*rZaqfO{<EyPs%^fJ($)n%K6{5axomh
zpz@ysv3P@m-_FUuL17n-JBm+=>sj`fF!^`8Eti{CbwX=<(-N&}37S8+J(JZxn~tkN
zzubq9=;cfOOka5im*8&WlAchhqxI5k>%ucg{Jjjc6j%qoycJviac8_Ch&6JE(LcV;
zzv>IQ_;a~96Mu*ne@PW@oiNPhzpI*flz+jK*Ub$7u~+c9qvrnkz7H$yZ{qp2Be=eS
zUoI^ErFh?mPQ1Q_>WanE$ZxF5=8AUv^6(yhGqe(G@$3$$YPrPM(&auYh_8B&_gTS-
zYvKC^wxWJp7ZBb;#2?**(njW+)85XU?84_?Sqh6ZCnLW0E)00NVk2K2uE@!^C&+JI
zR<eGLlq|(_NeF48oL02FZ)F9E`EHGQI;|yhb<VXm9kIQ2uC-}%)}|kaYHO&6Q~4$X
zrIEWN@oiIlQ`PE_U!SaQ@f&pZVJZ6rnJ#w^x>N805Nod=@%`c7_{5c4)UDH^x?}w=
zr(MMSd#AW?@y9hOX*&O8>B0Q_lv-o7Y2M_^IL=m<Os#1j=+7L$Iv=lT&h%&SCVuiX
zG?~N6b!mRb4u?ixj3Xt-4PyF+Ca(c=626Jf4>IxvXuRZv?rZcX`Tfb#c;>0Bgj&3|
z=Y44%oyReU0@Co!*UV{YPOV03DeA^k{^z;GUi1@dXw>dAkXWQ)4gUl~U#4fRzNCfR
z+o@E?v6D;w6+ii<D3wBAOPBT!4-WKrYq)%KY|^+W`<eOp+%YpA+3nsuA2mvInLf%|
zPQa_afbQjbc?JBRRnwhbZJ#P^L_OdQk#Q<PQ5ipTjHN(%f76%H+}brN4?@lSBYgT&
z!04>US6BPcM6>c?Qm%ObZZ{7C*5Lo5hGnR1-|-V~Y#;6a?(ljIK3-;X`LXFY_OG%0
z&%IVUe%2S-$))_dpK`a|QVZn#?3!-AY>IC!1SITi-p?Axmgc@?z)yS`OHb4>P(a2W
zHTYBZxc#)WzbA9{ILTuOu=vDW6|BWHY`fXNd%#*iz%TLwbUqvq5U%OKU)kP{f}$#4
zY0yX@;otfRw>6AT7=OKb{mx$Q?zg#e{*#}~(i2Bt;*lCGP(t&HrgqzT+#Sqg*S?PZ
zb0_XH4;LB?c>8x>28+G0rJ0>;@K>kToW8yGeo-2KzuIqdTzT84&9~9k&+^;)faQRw
z(@NaTbh*895-9s=HHd5K9Jksn=gUdkdtc7w#_SdSc%N!b?`ggG6DR{1UkoNSp<LOl
z_tRh5ska6L>F-<9g;%lqFxg7t!yIgb(F|cMeimAUWFOY_jiaon>bTDi>;|%DFeh*E
z=$^2mhF^k6_GC`$?RQ@{%*)(aX?t(SW<b`kFKfw3qc5C9%@TY+26tWborC|oqWJjc
z0%Feg#dO(Aae*S7RnvtYw0|vc6XUid-Ua6XXLLheRH4lrV<{lvoScLveePQ*0T*~b
zukio7gwd7)5|X}z6HnApWkAA|8pMs`_ehDJiw=~3A%b6rIifx{dP7&bjVrp~n#!C#
zj6d<9c5>HLDlbKEbd8d-Xd6;+E~RkpOev7G-OglO8G6^tb?o!=GDdgo%#p@z$iTUj
z;l7tcITM!w8@b##Ixk~%3qu);w;==PQU*qKnj4TaaT&0Yld&W(L!VlWDwL*e$iTUj
z!4G_~P<AxP9Jf$lBPXLXFJp9r#@sk=8!~V%W!N}x9_36tH((<t<CMG%UD7!!H=4I0
z1Ls=bH;+;#E&;#KN%*NRVY$7%9*_`Sz8-%yVo@*0-d%Wj(94xK6Kl2boh*zL^a~H;
zT7wMzYYJ^|`ZBuh<@JD!sWsiWcQQ^^6xCo(=8x51OXz2QLMz%w4?l3fr+r!b@|Ep7
zo7Ob<`+RcV$X=Kz;(Nq+4A-!F^&pm3YLB!SJ^4lsIi_$kH9IXE%1$4dkvq5DTelj^
zp_lEN-7UL&wlup(Hk_T2jbvwLqj-fpmYtoAXZOq|vU_FAvU_LC5m$l#E3^A#li7W<
zRoVUYZ|G(B*R0PTkWFO|^s)zAT8AL5L*=Q`U3OVE3Fha)d@an^!F)Z;&xiR1FuxGy
z4}<x`VSYZ$&xiRVVE!F2f25f|%FMqL=8yKW$C~*Dm|tY(OJKec<`=_!6U-k6^UW~7
z1m>5*d<)DkgZXBdZ-)6+m~Vr5`wM{C<z~JE=8yNX`gfJ4X1ig2g_)lW^C!UkN|-+p
z=1+q8RWN@t%%1}Dr^5WZV15<MuY&n^!~A<-K5gn(oB1^`-{WOZGxcj>K5OQuz<e*v
z3(TJm^L;SC4(9t|egNjz!~7XAzYgZt!Tcc155fGfnfJ{6nJ|Brm(_1xPR*VJ^Y1nD
zQ(^vnFn=!0p9k~rhxzki{sNf45aus}`HNxxe3(BU<}ZQyOJV*4X8yA5-0bDqn(PN*
zf5gk`2Y;q!uZI0=%>FdkzZUjC1pC*)J|1u5gSxTo4X}SB?B4|YH^ct*uzx-5e;D>}
zf&E*}{%x>-JM7;9`ychPAGhqe6ZSu0_Cv7$N!Y&&_V0%Mdtm=w*uM|<?}z<Q!TtlV
ze=qFc3;Pek{zI_;u-RW_+4Bg@Kk8*4H}g-x{F7#WI?O)>^H0P4Gcf;YnBN5R&%*p?
zVE#Fn|18XJg85A_|2)jU0P~+S^Pe~KUx4`+y{x{tHZ}Va%)e~rcZ2y?VE)T6{}q_u
z4D(xH{#BU&D$IWk=D!Z}-+=jV!u)G6zZK@cW#+$a=D!2;-}SQJH}yY&`Pa?-?lAvD
zn12K2e+2VChWVes{7+&2O_=`~%>Nwbe*yEqg!x~={I6mDH)j5~X8w0D|9da{M>GE?
znE$hxFNOKP!2Dlf{%<h<cbNYN%>NVS{{{2^hWY=%{C{Eof7wdeW!GJH$tGo2qDm$a
zyz?(546${V$qc1r3gF2!Y&A^@F*+pE0ZVz0>~69fBTHp>A}pmuMD`$}5+-6YgNRFn
zNXSg0Ork`&%pxizMpVjdA}MjAO7<jFT7n^!wiiPwDFZwy$JV4(FghfafJqBO+CGdd
zl_U|CeTj%v5mDKXh)FdOmpMd2_9x0@E>SKuM1>qcR7#3S%7H|c97L$JgBen3hcJ|q
zLjg}}u{CLRj1EaXVA5tl+I&Wq$^s%R3yFvvMnvUsA|^)=ad`)kkRypQIf^KkcM=tH
zG*KzX5J@?fsFDUkr7dD;t~3%g(nO@>IKY!7*qXehj1EZ)VDci6w~Udc(n^G-jfhA)
z5tZdcOgf0T98V;qlPHreqFlO(3Ryu^$_YeLRuWZmBBAn5VrZ_cB5LFmA|<B+p1d1d
zllLA*ha?S{yqS=<nvtclh6qa!5s?fLmD7lrtR>=-B@)t0l!*}Kayn5VeMF_KBa+fj
zRLKCL^42pnSI!`6#3NF2Cg920*qXczj1I{;fXRzO-g_BYD(@r0axM{(^N6UtpNPr%
zL|iT)5^^C?CKnOqaxqaMmk^b5DUp;95LI#+q4F+gNbB7d45j3QfG1aCYtpV_bV#lS
zOxi3+yM~daaxD>-4-pZ$j)=-eA|}@pak+s=$c;pq+(eYi%|wNKn5dLnh@{*~RLO0G
zO1qt*x$+UBMm|BL<dc9WcVlbv?qPID?gdO<4D#+{WU1UwgymC2L>?fb@*okDhlsd5
zOeEwHqD&qo%H=VlLLMh7<q0AwPZCw~6ru8-W=M1H8HQ5wX~2_bu{CL*VRT5I15Da%
zNc$`!OXYbYEH4ld`5Y0I&l55E0uh%NiG+NSD3dP{<?<3yAukh^@(PiZFB4Vr6+)$L
zW=N%NVJIc90-k&gTa)&6Mu+4ZfJuu(+BX?lDz6b?*-Av@TSQd8O~m9oL|nd0B;<QU
znS7rpmmd%n@;Xr|KO~a!22mwHA}9^Lw(9yZBU17cz>_zzHC;brbVz;<n65pc>lchH
zm0uEJ`4th7UlURJ4H1*y5^?z*k&xdLW%382T>eN@$e)Nx`7@D}zYtaOS3<MwZw#rl
zzcZAQe*m8R3tN-+Z$^jYKY&R~K-zy9St|b{!m`UGAR@aGQJF-<q=bmeWFjF`h%%W<
zl*=@tLPA8POed1E8&M^@6DqBgA(gfVLn#RZo<y)UX)_rek|<!(_JXuoj4YKH5ti9R
zMB+qL_9SAGAmXwYk&rT?O!g+qrJSgc3ZhafiKOg9R7sN1(!}3TVn@F(BT`ZYcv6k6
z>6*jnkn9hbt}^JF%g9oxA;NM15s?%Tl>>>G97M$BU?L%h5M^>GQ7-d{3aKS3rH)8S
zJy9j|3C*$v45_q*45j2Sz>_1eHEHi)bV!Z_OxoU%b`&E^<())WjwT{<3=x%MiI_AH
zaalwpq>(6-#YDL@5fySAQ7O$tQkD=^vXoG1Eey?-Wkij15Ggqx@T3b{lh@7YkgNbq
zUOD8Qz{pZrNrdG@A|fXdQCUUA<YXc)rw|D_l_-;U5#{o3qC(z7R7#pi%4(uY)(|SM
zhat_m3_~e74e%t3tx4-;bVvj+X%&!mIwMP^j|j^;A|m}nR0fEctS91f29c0KqD+Q}
zav3Hn#3L%@Od=^~5mj<Fq0%-mq|(k|C?)R&JUJIzlXf1XL-KyWq*X%N`HU=;3y82>
zNJQi!A}SXXF}Z|@%cVp@K0uVoWkk7LPE^PhM5TO?NXiINC07!Z#y=Uw>)<Lzq~vPA
zlWVaxT_0j}NUj4+*FMm-k&&fxJrR~0h=|-sMCB$TCN~pt`7n`?TZl5bl_;0nhzhx#
zsFaToNx6fll8+Lq%RbdEA7eyHJ`Q;D32aT*Cm9`*y8zRbgs!_8St|DsVY!!x$bCdq
z?k8gMDIzWp5D9sZD3gbXa(S4jkVlA0d6Y=XV?>oaPN*)MsL2zINXe6cCr@K*x}ITl
zNIngiu6?0v6C+FISt2Z-AtLe|5tYvpF?pVd%L_z8K1Y<v=ZSLp0#P9^5|#2rA}L=Y
zs^ld?b=e<>k(U{fl2-svzJjgk+RW&XYynJH6?DDI$Wr+#5tgqJ5&1e1m2VI+`6dyU
z*NB8{CCcPmM7eyMsF3dvmGWI8Dc>Wi<okr`YPS0I14g9eb-<H1ur*yjVsuD;44AI{
zpz9}$ER~-UVR@5?$j^wV{G5o%FNnDOl1Rv}h%)&#Q7*qBD&)6BrTmUa%I}FP`2!Ku
z^+!ge<WGPnf5Fyt{gu%n`5R!ms-f%ej4YLZ5MlWz5s`lpQTaC!lm8HL`7e=>{}E-f
zO9@aeyAl;LiKvtkA}N!JDw#qAbxmbNN~QsxOvl!A?Z)Vk><*Z&InY(g$WqyZ2uqlV
z$P6MX5h5ltiMT|Ggv=t!Bu13WY@$NqM5XLWBqc#q$zFu&ns4P;#)y>c4R}(4t?8;{
zbV&9AOxOO<m1Jb8>`R2DiipU5L{zGYn9L#KvOkfKxkQ=N5an_JQ6VX!QVt}Nau87^
z2NTpKhcKi~*r5!iWFFv29kwQ|p3xzh516#MkhXx4rLvF+%V9)B4kw~=1QC;W5OFz@
zNXSt{nY@!Im!pXaIfkf|V~M0R5LL2>P-%?}skFrmrKAb)q#0Y2wuI3kSqhl68c1tl
zWT`A8!qQ4aq>YG5I}wxRL|i(Egd9(lNheV*T||X+6P2=pNXiLBm8>MH<wRnRoJ6R+
zRSc!%WWbYCu{C+`VsuE}4Vb(GAn!elER{47meoW=)(}zYA!3pt;&K|1khMgaWQlU=
zB`QRSN;#cKN*_@r>xgRUC+5fiq4L%<l#(+5Plm8HdBcnji3gax6y%-B$Wl3r2+P?-
zL^cpnIfsbJdx^Nbk4VV5M46mNl*{{x3OS#slnaQYTu4;OMMSk+Ow5r>h`DkpQ6rZT
zDY+c*<b&9n#1Te^<VwIK9teq7F|t&yCc<(J5s_<&sC<Zs$#q0rHWCTBo+y(Wh;q4+
zsF0h8O1YUx%7=+6xrL~fTZuVx8=*OPJ3}e?2;j*_u{C)gV{}M94w$@yAn#5_mdYoH
zuzZq;$X!HK?j~Y#4-uDpiG<uol*#=>xqOPKkOzoLd5}oTLqwH4OjOGw#2k5)m@AJF
zHSz?34i!L$imgd}hSBIy0h4$zByM6PI#dE3DuE7_K!-}8LnY9m66jC~bf^S6R016;
zfew{Ghf1JBC936RVvf8*Xbygvp_F_D@MH_NCht{7hvch($vXt{zQ)K>`8pAnZx9jr
zCJ~j_h?s08;_@vbA>Ss-<U2&Ue3z(@?-7;qeIhA8AgbhbqFR1P%#k+;mG>itQu1TK
zlb>R1^4?^0NPY&Gyh9=H=Zq|sUl3vWB@vNd5mEUy5tH8#arrHgklzty@_V9O{y<d7
zABjr&6OoiZ6IJpTqFVk+%#ptlD(~+MVPXnkVv4QF`!}O8F$GNCJjnYmBQY^0FfpAB
zU}8#OVoG3QN?>A2U}8#OVoG3QN?>A2U}8#OVoG3QN>ocJF$Yf(RNEfh!^{-G%oJPG
zHj~kqnF6M*7TRVp5;Ic*GgAUHQvx$n0y9$rGgAUHQvx$n0y9$rGgAUHQvx$n0y9&h
zTJ|M!+N!vhlKlWr=3r~u_GffR<^raz4%%uMSt<t*VM!4YIgp6TK}1XrCgO4kk&r`)
zGMPt|OD$0$bws7q6G@p*RLKIOS{4#>@a#zQ?J(}8<Z!@~cVKJUj%0L5jsi?uJ+!@(
zk)?7p5td_!h#X5qrGbdaA|fu0L_!u5Wzs~H%W*`7G!vDwgh<L#qDoqbYFS3)w6$_C
zC2fEw%ds_W9gGgi@qlTY4{e={ER`-IEZsyzRuEA+fr!aUA}%Kq2|0-<lT}2yoJ>^6
zDMY25N+ji7M3uaosFwE-bMR11^DWK2l&l6k>A}{tWf&cj(*V=90NU0vvQ)A}SbB+w
z2oaUjiJ0^eaal(sq@O600is;i6BTj>Q7MB&Qig~s878X5Bj(_7qiQ>odnq{!@MHtF
zrtKU?hvdD0X<G<w?_*@CoJ)k|JR&0RC!%sb5t9puxLimi<RYR>E+)$55~4ybB`W0u
zL{cszs^oH_TCN~+*TM(6my!{{ldG^bZC5ioB-a3@?J#J&mXW3MAtEf-5fRx)MCE!S
zCN~gqxsgc7O+=a8Oq9!qi3+)esFYiYq})bS$?Zh7e1yo=w>!9(l8*wOd>mWTb|<4l
z@(IAS9S&`uWMrw_MTF&UA|m$?QMs3h$$dmz?k5uRDWXgsAj;)IqCy@bD&=7!DUT3U
z@+eU)j}f^teVltKc>?g{DQr#K(~J(uGk|G30@^;!$WqxvgymTxBA+3m@*EM9&k}KY
zo=C_GM45b!D3{L@74ik5QeGsI@<pObzC={ZOT-+0_nmhgUgjQVs{m%J*qXM@jK*vg
zFm3OEwpSU6*(!nADuLN5f!Qj7*(!nADuLN5f!Qj7*(!nADuLN5f!Qj7*(y;jKOpAF
z>x9btAwwy71MuX>*qXebFgheZ1x((NkoP7dOXX)oSbk1K<QGI#eo4gSS43QXO(f(u
zM49}SD3{+674mzcQvN_B<&Q*_{E4WRKNGoT<S*Py$zK6a{*J9_`v;>#@=w6D9R+Rw
zVq~fOn+VH)h=}}`h|2$nnCvnIh|8`-LM9PqQbLr=WTHZ*5S22ONXj&#N<u`nOeb>M
zcH>@3b_YD!16$J;W^_nq0H*Do&=z52smvt85+x!si-<~$h{<dsE^#6udlF@mAj)Mg
zqC(1uO4*x8N;y#_6-2dE61mG^AMT|j33yV4t!dkj(IKe@Oxw}WHiwa=vOf`)xkN;2
zh^QPu#3V(;<v=1K2N7j*Fi|dt5EXJLQ7Q9?q|_2sQb$xvJ(0_|`P@s%0>G2Qur+Om
zGdd(k0H*C2XnO}EOXWx+EJqO$c_$H-qluUtL&W7+A|VY#nJgm8rIDzR#YCkv5lK0Y
zsFG%)T9y#GOLZytQqlr=(u%EVYh!ds+5yvcEVM0WWT|uzVL6_NNGB1ME+Qt~L|j%7
z2|0l%la)ldoJds2NkpZrB9d}4Q6;Ak)p9D4)AlazrR3d!CuwX=+iFIKWDQ{28lbI*
zk)@I$!g3lBk+norvP4XJiMR-nkkg4W=_ATz9Z@0uM5PQ6Nm)-+$r(ho3=%nQL)=Tr
zFyP6V*qXMp7#)(c0n@e!+BPt<RL&v7@?Ih$?<1meE)kRSh`79;NXYp_nOs1W%Y{UR
zTtrmL#Y9prA*$q3qFO#c%#q6oZQ?FxC?!__o{V5?@~&ibNUj1*-f_CpO|E7<CanY}
ztpp~m1SYKnCanY}tpp~m1SYKnCanY}twjD$FUp6xKUZ!cYUCqCO6~wW`53k)>EnzJ
z$(?{nYBouqU_2(O1SYBkCaMG`sstvg#OPN)+p|@+uuAUZ;kj}@Q6mo#DR~(1<WX!b
z`NtR?lE(o{eu*Xj1mnZ<BoUFPh^RbG#N-(wE}tg0o%|*qo-5B1HS#=>k{19^K98*>
z{{=>e<VC=eUuwyJk?~>q5)qM?2)^|yFEbRESBQjsnc%`m`3gf7vY9COJb-Lr)LeO$
zsF80HDR~X><XhO9jBhhKB;Nr{MvKY#F5|=UJt89CCsf7{7>dj5#I|$bhdex2-XLn^
zO(G>f13dW!wwClS86A>e0haVKOZwN056f?ei2Rn&q<_ayTz*e%JLy00@Lc&LQ6qmN
zQu24elYe4sN&kz{A^A68Nq694{SPBc<-bH&{zpV)m#IKhb|qpmiHJ)Hk&wwmnM@(d
zWhzl2(}+q55&0{E<0F~QxEk4=NJ%N+Nf=wxG=tG0i2$bQcxal*$Wn<CVVOllBt}GK
zHW8CJ5tluQgd~VE*^4NbGNMBECMu<z7^SI#aW%3Jfld@aCyK3U+K<ubL;=&(2~Bet
ziB6P2CrY3bCD4fy=tK#0q69io0-Y#<PLx0=N}v-Z@|vWU``VDzF_e;ez>@{onxut{
z4#{DFN$Rp%b2#I}as&~PcMwrIl8DJsL|ooUB;;tKOpYPS<yfLZ8i-0+MC9f8!`enh
zr(`kU$#K}4mS#qWWC>tex{*Cg8CfbVL|B#)5osl&(niFjorueFA|V|_nH*1)OD9nw
zT|}jH6L~$dg8Q01Coq(fm4GKFVQZ3BF*+nC114#OW)EJcmQ#2rBBv6(po&>uEbrpk
z=!pUJ#MoLgs~L@+7_ekcfag7oL{ChhCnnGn6X=Nv^uz>uVgfxefu5K^PfVaECeRZT
z0ngWSA8VJ08W|$c2?OYau{Bv|F&dpPV6s+1)&@qR6DH6J6X=8qbixEWVFH~nflin}
zCrqFdCeR5J=!A)YtV_7B1#&4vDfs~4$>rFZq$?O5k`DqV=|o5xVPvUXNrdGpA|h84
zQMrbQ$+bjWK13wsI-*QA66JC|Q6V=Fm2xAIm*m&kn;4yvn*mR5!PfNL%IJ{X2AG~z
zcKzJW_^^D0h{zp8R6a_?<YPo!K29X$PNGacL6plUi3+)ksFb^jfEGNAmU|diBli(0
zxgYT40c=grgNzQzLxAZy+4MZj_^>=eMC4H-DvuE{d7OyL6GTFuB+BF|qFkOPD&!fW
zQa(-O^~fgfqiZH=<T)ZGp9MU50b7&wIYx)%^MFY@#Uy=!@nQVMKY5WM?UcUAP+Y!5
zB;+N+y{{lIbEmLNeuYt5TfWQ?Za)LK{fw<8{VJnz`x&sLPqn1K#&}Ko>kMhq-(V;%
z-z4(=p}fZZf@HC@UDMpkBPsb7;K_HewKTuW=#YF5ur%LgX?~yan&uA}(llRZC@w!F
z0%^X%{c+R$5s%<LHh}xs*jk!zG8*@>0Za4UnkJj6pYsrA+C<UK)Gv8<N`3`+@*8X|
zncp%xB)<bJnfK(9`8^Ls<PSvA$^4OL<KZ%Zhs)SnGJj<>9xelxOb@Q{zcUgKmkB&v
zCh%~Xz{6z%50?o%Tqf{vnZU#4X#gHB6L`2x;Ndcnug5x^n9R5unM&ZnGJprm*qWx@
z7>x(ZfN9D=Qz;|yV41*!WdaYD2|QRP@L-w1gJl8_mI*vqCh%aHz=LH150;65Cfp8{
z1mkL?jKD)>01uV1HBFU_#zSSmG@WKOEy;K+XC|<mnb6v{A474eCi1my)XU$z?Jsk9
zN{!4VQc?qWlET)~J&@5MIS8<H*ZS3f7xTe9s_7lVP+Sfr5;BkQFXmeA6x493W7J%!
zCu(E?k&=agCx>HeNgu)Jkh}x1q_e@KkK|EJ`Y47lL?JLlA^fC|;Z8x)T;n6hGP*_<
z5h-Z|JZZw#(mjsRA!!CI-QGaD_LU1+!gJ!Xl*nhVv~a&5Jz2)6xzbA1$Z{ej9e^jD
z*jkcZj1EaRU`dLfq^#hfh@3zaeX*_N*(o^@@MIOXmdweF4#_EiC3Cu;3=8vA9@QLu
z7ejG*HxcmeJ=`z!F3l)yAy+e$k~M%Q8Eh@d(-<9+wSXnr7fdqCqeXkw%d=A=fG2&}
zS`zCR9g=>)l2{i^Vt_}BPGUXJ#^ZGWkJquaB!(G{$LoM4(H}^nm=B-GnY5r8brwS@
zIUDfg9BeI#_cA&p?*lA}0W>=2GO|?8Bf|22A|mG#QMrJK$%RB*E+P_gF;OO$5an_y
zQ6V27D&;aF-{{EY+*e6gFoZSZ0M?9SYm%;FG}ep*CTTq+UBgJM87Hu2oWPoK0&B(z
ztQjY;W}Lv9aRO_`39K0>ux6aVnsFi^=~nKmq}v!u$?bqAcVKIhKFa8jd<-y2XF$@&
z8CfcK5@GoS5s^<4QMrqV$=yU;?jaI#FHt7<5#@3}Q6ZlqD&+wpFA48Ish$TJosx$D
zPaeV6^gPPwkUR#Mo<Zn&oROvS1cAFD1n!0qxEn&?ZU}+9Aw)tp5oPi$Q7)e$D&#q$
zQa(%M^~m$wS4l50l#<T@o_qmYlk_5^L-IwyBn?5*ml(;fRLM&WMdW3o=*!|2o}H2}
z1D<Tg){@%7=#ab$SW?4*%R;`&quQQ)jiI=Fod~oi-{5{>d-6?2sduk2l#;E0C*Q`_
zlKc*%L-Jj~lJtT}evd~r$?r21mmd&;Bwy!#VUj;&lqUHGLn-+Y;K@(0wIqMa=#ab#
zSdwQ3ll&QvYLY)^C@#Ms0!jXo`-MsVicy;6uNg|oZvanzhpi>~dq#)k4}c|kb|A^3
z+M7Spf+q1NhEnopz>~jXYf1c#(INReU`cG4XcGUR1x@0g45j2>fG7XK){^)yqeJpP
zz>+v;qDkx$@{`z=p_EJlJeiEGB{7B3A(;wT67QX864Piwy$CUslIegayJKrflrlOb
zdjOWi`zD%1m=-jN84RT)0(cU|){>aT=#az!OXA!>5;B`dwT8tR!u={DU&BTX>LkI#
zn%rIt;q^EGug76)$yG2Kug3wF+<AU-vJVeMBuPYNUm_+|L|pbG5>ic+$sD3w_9rT2
zE>S5pM82`|=hFu;IwdK<lY_7|9S1WyB!>W|<Ndx44o42<QFVJBLvg7k5>iL_1H5|f
z6kc5O8Kv$oU<l(%0OLw*E!iU&jd3Ml$(|of_DCMpWRGG9<4OYKN&>gOh;n?}Mvi5u
zQW}W7%d&|3ntUTexbp?z&KI_pd^4kQ=L@jpFAOHXlt(rB7KY-oj7Uf;;d|Z2ol0pZ
z@=5!-y`0e)V*(gsVr%JkF&bk`z|y@anC=Q5)pSo_C@w3Bgq%o}$w`E|y^5hqIhn|(
zEvIl_-9D9}l)MY@<UQD0@@YngWHn&PUmQ$+4UcN_Jq+#myE&5Kd3dh@z<UkYS~9(i
z#(NEbC38tInbUbxlj&n<d&&5@xsE5Mq#y8PJ+_w48H^6eAYkcS8cb)1M>U;chKfnY
z<B52s5Wp*i*jhRp7>!p70ZZot!F1lsqngh97%C>6b9rJ)&I3F-A6rZ30!D}ALcr3w
zESSzkJgVtj%uq4uT*4Dmaw*`+W!PFemoqvfR{)mI<-v45$fKIh2t&oBb0tqq$yI<S
z*I;YuT+8T?d<d{~t_Y@c9gk`{8yPAlo$GmGN^Sr=xd~fK=VnHS<imiaGZIYa79Q1f
zZe=Jgw-NcKTW;rmVf*zFM(LGw2SZp%17IZ$wwC0bjK)eDz>>T&nB*sURFk}mp}5>l
z1d_am`-Mr~%P39qK8A3o5x|{BY%R$L8I3!QfF*gApQJp@LlJp|V6sKs8h?~$r{pof
zlP9pXWS(SnNS*>LnXCO|*daX4qw3i+3}N(41U%cs{Q}SYb&b#RNJ>5fc=B0nExqR%
z9g-ISOYfRsdY|LbqFwqt&rZn~08hS%ttIg#Mu+4jz>>Hjn8eFGsxH04(Dv$~e3@rx
zA$^6Rlxzk(c@<kr>Z^<n$=3i&>c(JFU*}Ox>KhDgH>q#(3{C1ahA;{TFbc=klKKv#
zF$xDPshfjIeUC>qsqZti-K2iNGc>8!8A{0y0Z)E}ttItiMu+4lfF<?eU{XKjQBCSi
zhPIp3&v?dM`8iP|za((m6TodxY%RIpG8(r%0ZZ<dU~<3bQBCd-3~e{LKk|&Z@+YE3
z{z71h5`ZO2*jjS`U^JE}0hZjY!Q}qMqng~m8QN}g|KS;P<-bIY>@pol$*zDWCD>YW
zlNlY7DS#z+TQIq)JgUh}V`#g{g?I*@%My4lOW?UIfakK<T5>ZOjpwp}C3kx;xtTnw
z$we93ZgR7D#$1UJH4-OMvM1olUf5c4WsDBV-hd_dkzjJ=JgUi6Ftoko*!N2%&#I9m
zk&=A@Pxiys(yC^3Nag^R)*ZpL_UBPeYc50EOG|2a##}josF6bmd^Q5WXCtt+<mwoW
z&qe^2+((1S&F4`~ZUIBvOHN%|$g^tXa3Uo~0G=F)t)+DoqeJpez|y)mkXA91Py4c=
z98EhZIR@~g0b4V_h|wWw1kC(>J7<0|?chBk0PhiDYvz|Q8t)MSX8!)2Gv7ixDOm=1
z(uS>>Z)bE!mIG$~Q#)tAgLd%7Fn~9Pu{HDEjK&+ofSG?_=ggl#J9xwm;1M^rW_}f;
z@rWBR^AGNv`BP{IpXUJZc@AvN{CgOU&vO7~{-K>SznXS%FB!nSWNgj+X^h6bWWdZn
zymRKWw3Cuvz?0LlHS>Lp4#_&e%s;Yo=KE<UB?EvbXJBjQ2N@lbA;8Q(x^w1-X(uHf
z;K^Con)$OC9g+=znSX5O%%4L$cqtpeOWD|(`STc!m$Csf|CyaLe?IM`<O0Bxi?B8G
z7c)8}mjGt|xt%kADeYh-0f3bR*qZq(7>$(#fSLd7&Y2&fos?V&cycwiX8syRhvZto
z%s;<#=08L`DY*{t<a%t){0)o_$&G-Se_`j$-$XlD)&O8x1GZ-VRz_o417PMqw{zxi
zryaal2jImzY|Z?~7>yU}05kvjoil$Y?WE)rfG2lhYv%7}bV%+2%={O2&iuW!lal)Y
zPd<gMnSX%MA$brm^Dpk4`G;r+D=7i2q{P<DKgMXRqy)_T7kAG56SRXj1_8V=h^?7_
zhS7Lq5HRy!+Bx%^XeTAl0-ijFt(pHUqeJpMVCG-iIrA^j4xVHHc#?swnSYVdc#;8_
z`ImRj{Fi7aB`*P<yn?Nn|1zUP@)f|$zp``YH`7i^wg8@d6<ag^HAaWz>wua6^3Iw6
z2JNKen}8=<u{HDGVsuEp4Vd|_?40@U&`wIe3wZK<Y|Z=+7#)(=0W-gO=gj|*cJSH=
zfY(N_HS<4VG+rA4%>0&}Gyf*-V0|or^|9ER`Cl>`>tg{k|LV?}|26I4@eF{+GuWE>
z-!mGIX8<$*)txi{N7})f7yxTxur>34Wi-~r0A~JcJ7@myw1YQI0laC7t(pHfqw%IG
zVCMfBFfae*QO+fbx{>ogo}H3ic4HEgu(c#g5JD1@0ZZav!6c^eXwgYb<=I%I17ML3
zwwA<hjK(4zz>@fPFo{wgEjo!kcs5>p1@PMI|7-8d<18!6v*~lYXL{IXff<IqWt*X8
zhPl0upmMwWPIu4k+qb#5n^^=E!oZyp7+`1wj1g3fXtOAn&E23;L5)jDqHzNSF@yjT
zB;t>#Q6#9i;OFN;#5~XQo>OP(o}q_m^8NC0|2Xy5Q+4XCI`^Eax8ACHUtEpFV!}A~
ziojU>F3Dmarp}qgzRcb3mLiyP`{8OVmJ@Du`y((G&m>tKz|=XjIFPy9-9ZSZ+#$Fc
zi$e*wx;6yH;`d1wFJS7NSscdPID?A-XK-;f7Do}r8C(QnQQoa7$zvsx=gi}1=5BZG
z2(Va$tMOPx7>h*+j7L+7$FWSFGmkaQ-R|-Trd%hk#-odHtLsK!Jc1OD9wyJ3M=x{Z
zOfUkR3C7iU97h;uf)N;xT#CnwnLKA6FJW#>u@PX3jjQqKCyXgJ0^`w~;xWkNIrAto
zH!MXWfTc)WjmHS#R<|C3@n}i$C^31?JVu!tXOt1(j54mqW1KL~C?hZ)^HMyjOrA53
z8gsY12?SH_BwUTh2EwgwBLd^GcZ$a*CeNA2X6A<R5CkwDf~)a(Ibj$NL0~+Vr+B=Q
z$>iZqCABm4O{iKqjrlM^Mt})2uEysK!k8c<Fh2XI_|%y^=eBHR?sn%8V7C>n#^Y?l
z*lmTtcpQ-8u?_fjxBSg+`puo$xhxg?t`K0~6|TnY0>apLg}|5{m|}Jzljq!^S2H&@
zULnB7D_o7oYY1cG6$0aNSc=DMnLKA6f5zPH?sW*J+-0~LkJl4!b#FjmJPuFscq5bN
z%;R$A#>yH3tgPW`Jgy*&l{Ey$<A@ZGw=#LoJf@i&6I}$D=;CTTt|5$xE&}6mWQxbz
znLKA6*D`mzYap0%*W+qDZXn$1ZbV=_j!N;kiOF;3@eby0cke_n<=%~}@pup6R`*^6
z#$!c_$NQK(XCCio?soSV2&UWza5WwuB;4x$5`pnpnd0#wCeNA2hnc(GeFVXjyA@aC
z@lnF9?qdjy$I&SsA7}EMdHfY~V~ZOCY;nWYczl{LwzwfM9_=X}w=sFnJpP8cF;7K+
zc`B~P<FkY@PeounjsXw%IijI!MfZ6|=FH~{%-!z3h+xXyj;ryxgK(?+G6LhXD%F;+
zFnP{A?qu$EcNc;wcQ>xa<7<Rl-9I2O9;;J4?qTwrdHf@D<E#S$oOQs}c-&7IXB`k2
zk7H9jzRu)1^LUWC+uc7Sm~!91)p$HixYhj&0^_kJ#p9byo->a}m>aW91ej&wYCQgx
zFlLzuj7Lw3$9I@KXCB{WZfxH}fbDy@8jr^aWBVQg<8e)r$E@oa?s49eT1gHE-hXF8
zyL$q`l=~5`#^c9?TiufgjK|xaoySjj&ulz?%7k|JGXzuaDO`=mF9^4~|AWAIy#3jE
z{F3*~#^e7oq22uo!Ib+AuEyiHgj?Oy2#m+I&(7mNc+YG+e#eA%_Y8t5x7!{Ok0wyy
z5g;%gjc4bP<2|$SXl4Rz(<6XwdR(m?t%PBl9)a<=?%8?l&U<F#u?G{dxQPIZo46W}
zg@m!ViNJVV|Li;#^PbswEMY>s+XumvTZ*gkSVp+j?T5g4-0<u?mh+z3c<j#v>;^=D
z-GI0nkAn$gHy{GzapSY|IF$Fy#-oi1SS>|>)lyuI#}S0FT8hAU-1O``j^aJD@mRqG
zoK!)8lPb6xj~5cgNfiXfV`G3ZWEIg}aL?;j^M)1fSOz$n!T?(c5nu};uEuLEVQe8p
zV7yKtuj7dB3a{gN!wUCe1}ohO4BA}*!IT@o)p!jOZgoWj#_KflT1RwOcn$G}6>gZp
zN>^gg?nV(zxiMUgSA}q^8%JQg&IGSra&PQTWDzS|mBC84i9x&Dj9|*0jH~fEg>b8T
zIRfKz7Tfd+qPx<jSMr7x?o<XV-RTV4-4+B>?o3>bSDkRH+ls(=oo8)wjtP6aS20-R
z&SJo^#+^-SnLCF;yt~MD*}82+4|C@-kYUU7NUd<^Gk{|N2H3@i0K52bwK`l(7`ylo
zSRF3h)#r-w$GwK7taMi}fSC#eFjIl6@wk#O%v2yS9+y5B9#^xJm9D{{-Cc)Z%H4pg
z@wkz2tGfw-@woiC@OTGHS?NB+pxu2K!IZlNSL1Oj;a2xi1jgen&xOawSjtNG1qP4<
z5kL;a)p*=N7;+#2<8k$K;qeugveG@s0P+(8$WOQ$kB13EenMb8KDDbn+&5Xo3ik+u
zmF`gn?e1R@Ou6siYJ9#+xYhj|0^{?!nS9*$m}!~&K7-}%F$UaB?0!IMb}xGFai+Dq
ze@8Ioeu%5_`w`(*_hSUc@AjGe=A=7*k_EN9pCFiWKf~3^|2g4S_Y?vv|E}j){x4V%
z4n82j!3SKe{9h5q!3P9Z{yj6xcfVmKDq`GkNrfA)Gdt}=neb`mXm|gCV9Gs%tMU0g
z;a0aBoM{=K`)Bf*({pM<2`E26fTIt%TKO%6ar6O!mH*Jp^4)x9TIO0AEO!eS?6fVr
zGY70yA%L|iT#eV>gkh};f$@4|7G8^(X%5P(#mv|4mLQmN`{HUmmJ)7t%McikZ_ng0
zr{}dF3u<@E5lp!QaJBLeB;4u_LSW^8e`fjaU}n<)eh8_ZKC45S1BO2k!0-pI#^-Rt
zF#LhQ_&hO_&z#zEBnxVHM<JMUD{-~*k0#ve+7Vd!KY5PjzmNsByJHYcxz)H@`NtA&
zb!!k<`M;Q1zRNR{o>K>@oj#{d=4f|a2&P;QuEwXAaI5P>V0?Z(3!k;jBt9=9MLzC0
zQak9gj%QlCdohA3_flMq*9nAMT>*jdIs^XaGIEXUXQny4zXQyNa~%k9t^-%&F+>>W
zIuIC-b7%6H)Birgg4*4B1h6iKtCe3S4C`VDto-wzWBC;pg!3T?a6SZAE5Ak<=R*)!
z`4>FL@+VnPyE_TNl-r1_mA{E_tJ{pg%D?D2mj5yq)b373Fy&s3tCjx>!maL=2(0`|
zo@4o^vLF~GMF69uxLWyJ2*W5T0xQ35X8G<+W`d(B25>aRK<}(0wS#x|RZMGlXCat!
z=iqAmwh?Z1=OQqE?X&PZkC~Ra^BF96+ZpWiTfBfduz3stHjm+Iye=Y)&0`3RSJy1O
zE@7r+?llaSyFX>HQ(muS4xBVWfRiS;8n4R;<D>}!<MonRc)fv{mbo`FSne)ouv1=d
zVh-&4LV$f=xEimw5XQbQ1jcK47GBfLw9H+}V7a@B!A^Ny%^dCS8U$1B?YJ7RYYDfy
z1_I+%orTwR%!H%S3~)4>!A^PI$Q;<Rg#cT&a5Y}<B8)9t2#nXsv+#NkGpX-<FR7jK
zc^`A&s0jibHNn;Re1I^HnjkPfkIm$>^FGb}C5zAo{|}LZypI6#KCZ^&R>F|?5g3mj
z>?)5?4*M7jYIh$;Fy%ghtCjyr!maL82(0|apJVx-W<fZ#f?#TDde7}!&YPm|)=~Ib
zZ=BM=i2?|Gl4B)oN<x=7C>=$;rM{|uLcLZ$qkgd_RQ0PgcdOqlwL<;2`rVrIYcgJc
zwEmQ4%W}6U$A)qts9CMN^~oom3<An5pM22C+nWv%>zJ<&;_9fZ4zudGsSbha1g6eI
z$^n~Poyn<~Jb1}hmb_BQ1(cjE$@ZQs-^m7@Cbn{OB!@zpyUBl#oaM+fjoiS<=ZYMh
z$eV~<cgRnMJW^;nCc9X&nkIvbvPUJ8Trw3Vn=CSdBC{Z}(IML;GMypA7BV#<V-PYb
zBkNJJ3@4LyGT|U23o>gULjpRzuk-RU?Ie3jvS1`zLNe|nYdf-qBkO58M5&{UI%ud<
zfI0%ELs>c|r9(_Q_M-ziIx3?>EIL}E10Onup~De6vY@jB+TpLoXzkC@4jS!o(JmD2
z6VXl%?X}Qm2<=wTb^@*UYe8Ns=2~vnTCf&twTP<yyV_-|y|CJ`s(q!}{i!{g+DWPX
zj@p%|y@T4}r+s+ZEvG$g+Ign^VcNx|y;j;0rF~1X37}K@IyW!39&(-`7Zq{>p_#G#
zEy$yR{07K6zii;k*u1Q|%Y3@*l*=HvEN{!iwQNbtXtS&%%LcKG{mQDY%-70JtPHZs
z@~KRW>g25sRO+;&jw0%upw5Bm*n<uy=m>!}`fEGBHqC2myEdR}o47V}Ys<BkkF~z5
z1z4?+Y6(+oj9LWLDxH?mw9chPD6JA{8At0ZS_sifg_aVe>z6WK+H$G0rEiu(SQ=ZY
zR5b_G<V>?CO>s2;kPt5kThj%}E)pm-(rXCT*r-8EqlrXh$*>YMB@IeslU${NKs~j(
z(=F3Wx7W9wf5B|ds;7gYB3)9qys0rA6gM{DK6(|&QJ}f{2_(lR8>QxYjpX1&qtsGA
z17vP}rPe6Tt6wa7aHvt5U%!f3s>t11znO5pR%nzK)Ndo*L3;Q4-NH*FjnW?VM}?E#
zv;LIuf#F7JFLj+tVsvkHqKp<dR~w~;>P`_2#!$gU>QWgiqB4usw=%ZAzfoGEu9dNI
zr0t_VRxy+Uvm)>qsQU&QrKRdf8LL$qrDf_-85_ZU`>AVXY(4lbS0BsRC|a|>I$Ok0
zH6$LOZkLIJNIX#eFJr?f6drBhMTuG0S4JD9gVp^qu~2T54pA4(SOxVyRDH2!9cz@@
z)GITwj0g1sb<d2Afd^bphNTV{aOdIbv3cj_;&`KUg!*nqhYR?7j#Mvhsc7_3>dzT1
z7f_=W>e&$u%J_>{svl6S)F>UT4uP>z#M;#}Ft#4md!f1r#tJC(7<ChjRnh2G>Msz>
z<p&U5t)7F?4n~hvAHuvtXv!LOCQK}j<6qCKTVZs37)|L=2gB$9A77`s8b<RI$lRq)
zhtUp3yVd<zDjr#nIwDI&v{zjcqZ1=&X`ebLM#qQoSFBYx#prMmPxM9Vuozumz{_x)
zx-LfZ<M_jmS0~132cs`mccxT6nU|<zQ!1k`RTsx-C!;5*vtxAq<Y1#zP`8I@P(?}o
z>i?M7Uqo}qH6k)vn?x;6)F`Q2`8ifK2rG32ul9t-Uq&bRHl3t#n$Zn>oi}KlMl>jF
zZj?4^&}HH%-|o{j5Hs3eKuKFPh%=fm;~(0l(U{Q=M$gr_%xEX0=V^pyw2RU6HC8j)
z&FFTG+Kdj4R2t=Dn$)v0UPdoc-WW*IV!VbAqI^mq(F*YZy+ir5Kmrz%2ZpPS@>zjI
ztT#2LruV7!kIvew<%WuQ%GRwl7dKY$jICqKjTTRedbZryB>r>j+L{N8lfH9nM(2h%
z$$GbD{6oHbYpzc69kULuCEv#ShFx4shsCUuLt1GFPu#jWq$y?{9n#p4xT{050N>d)
zqq8eC%I5_XPxEwn%4Lx)d<0`f@b?{GbFs$y_^uEA3;y*T^nK0a)e0K#d%x!5zyRJa
z-~Tn&Dr0D=?*Vfo?6iFsm|I^&rF|cm8)e&lCx|K+(LMNHFgIAhKj6E;+%U%r-w)ym
z^VRkpVRM0RLfjQLSNaS1&wOXtvc57_Ktp|Zm@AK<!}0xLPN_TU5S!5<;^rOoh)Cv8
zv!gDtxm=h?c8Z8sligzT=wu0>kM9`KwqZ2gca6=3feEzDcaFJg1rN^mj(i&`c(A^I
z<l8{N_mH_EcF{ZPBAdsDN07XuK5~A(ZDP1sLj`<4Ilm)<d|!!5OpKsbzPCgr1o-~4
z1^p$vAKznw?<nq=W0wgA<3&70-)Vw@0N-uS%eUEs^F8Ohju7#k=e*7k@%<;iPCR_y
zf#$0GzI_kcS{NK`vu|XW-x7_($FnbfQ1h8X?`nw|XskS*FzJiil}>oxc(tv}7r&+n
z2tU}`E_BQDaeHAidtcu-<G~ec_!Ks4(t`r=-~_x(6CeQdy4uuTlup)ch)8#coT8}_
zk)9BFx#mekisNnipwD2lY1dQpHEVII|HmIwE)3vn^Fsjs7(@IhfIr3%KM<f+hD2k*
z)bzfU8hVt|PCI|gg<DU(VC%MX2Dkpn1&!A>R!;x7bl1(0NAbd%K-vs}6cOvJoAZgj
zy166KRX69;J#}-(^Bwj7uN^hsg;YO{ci|7$P0xcUo9?COL7ElfJL%?px{q$|_=9%Q
z&5&x7J#;g~TEu+^-ICAr&n+DW`0lx-(}215&hywa523ePr;ZuD5_{uBcTL9`(vz`U
znuoMMSV!G5UfpRw-HdJ<GmlB>w7`7l;xxMbOt;;fPxso*9qCScKE^5QwO=8n72AH&
zNX?*EN`(cer8qvfKDxP6GP{$0jW<GOPj%TXklG3O9=io{I|1Kew?J|y5cSv7Es)&_
zc<H?be*h=be<p1tA4&(M?5m_mqd2~__UditpZ<IgA5Hb27sc_8q;(VjPmAKu_wfI-
zJ$wtgcMb<562sBKq`Q22@X<QPE{o;=)4hF5S4Ki_={CR%=q)`4c=`MfJwSA5fH+gD
zFgCIXsB3`+Kz0Oa?o#@zv{)1V6&j1q(#j2s7_UhQe706`2>dYyo#uSGcw(b;fmSM5
z&kn`Sv@qkHieISp3#(O`V#{l_Zbl$GYVFZo7_SV}HdV(tD}J3;)sSx<qBW`)FVzwo
z?<|gw7NDwpy_O;XG*=*;G)iyKx)L*tS9Ql5wZ>$Cp3&u6Z{i&rH2r&%mYxt_P#lNQ
zI9`|ppFh{)1~YX^kbJY&IS_|50c8|45?5%^14!#&rCPRc^DSBf0S3(>#+PZWXEB=R
zSbU{cwirzf&C{3`Lz=l-t6fNK#(#_4*JvpP@s|9+Xc5z)>$MU_pu>P0v?|8(21hUn
zy-Dk1Os9qn%At2?tt<jipLc5AOaRno$nh?%p+x|4yj$yO0Ggqp#M69_me!a7>P@!#
zy;^1?fbM|6`?Tan08?=S@7MAhfcX>oj`6|-x{Tjy9S+c*A+&m;Kpo!GTABmCm&f~y
zW9u8G|Il(>>IMmyztaj{3Ll~>>KQHSrSK8HKfl*HUkc|}fs@o)`%5Q4*IRCC(t02g
z;wnKY2}Nhnq(#D1%2)xKt8%VMD~GAV@QyUf%}rWOOeNHy$SJopX@xPBuo*h-^1LRk
zIx+$EgkEg2wtfS-@7<*JOe8c97po}Zz$R)2PT`S~Exeq?%XVBOjE@YBQK?owtVwHX
zxNSb5a$#t!Q9is$OKiYeflX8kqoa-T5lvch12_*LbztQqo3sEI-V1#a9?wxtT8|6w
zt(7<7MJ=yr()wI@?>N5F^2#Qy*707%r2{J;-K51kV$jh|C|`S%*7AV0K>5tt#p>q;
z=m=^9)nXBRS2Z~vH&c0q@pV<KnUq&IY2gppf@*QJI67FY;-5XXNh^UsTTh%U3|iJT
zO<Eb`?GuHG!I8p5qukS^g+fZktpfwNJyLfx<s;p6Q%9tjZt9HG(oJ2FQo5--T5fCV
ziPX_ez0p!zQ(vTrZdx0uHG=$_NU0Iz!Nt_iK^|;O_Z;NG$FH#kdGPXD=O7P$@d{fW
zJiVeh$b+v}GY5I_j<w8r@Q+v6I#30#V-7k{3$I}gI#3a>Uk*A@7q4CpI#3s{T@E@>
z7q46nI#3s{S`Io;7q3|kI#3s{SPnW+7q3<hI#HK+eXSF9@hat@6Ls<W<e(FE@#^HD
z6Ls<0<e(FE@vCb=C+gx=$w4RT;@8%KPSnNgk%LauC0<$ULS5pOwJy{pURmoxUAzK0
z=t5n*`Z(x9UA*!*=t5n*?l|Z|UA*Er=t5n*);Q=wUA)pb=t5omvRcrMx_FIo(2ctI
zMYW(Cb@965pc{4Z8i=49b@4jlpc{4Z3gVy}b@AHapc{4Zy5XQ3b@8idK{x8+7t?|s
z)WxfXgC5kys~mzJ)Wz$AgC5kyD;t6y)WvHWf*#bxYk`9v)Ws`-gSAN8f%-S-Ma}#Q
zThNPI`vtb37d7+iYe66C;?=srT5$J^Z9xxO<k#AQUgV6I+ImqJug(qn&_1ur4f@a`
zugDF0QBS`L7xaRIUxW*K!NDtFgFe*EPvwI?<n;6Spbw?^Nqo=;?$LxDD%i=|y7JB^
z==J^n9K$`<%+xd0dl-ur&FUkJMayROlNrOpnR==EHpV0oV&Sa*dd0$(v-%B;VeL#k
zR{f)lMY{v)UtlcSA5eclY2glm`VW*A?h&Xzt+aTTfLny6G3AK23b-Rf4D$5M6*P`$
zFXDO{4+(AIt%>zCcVcvF4HdP{&ecOKv9RVY3$byok6Fj(u8%M-eOveEJ{grqHHvkD
z?yeB4#Y=7OTOpQMZ*xBlG0BtGExKkb_p{E4l{dG4h!r>c)i<{)#3ayIN9p=QEU^yf
zP7blerUZ9hh+#o4>N?$<LJW&?Q3vYY;qQeYY2B#%c!(v|=G+}2Hb!;3b*b(fA(l`L
zxF3dCV()@`#^>`J7~GPaJp-)SMP02sD#Q|78QgIm!+&Yrt{acAc>T_u5n@=xi@IR<
zry;gJUdMBd5W`|#)E&E9LM*YM=k5rx#GVKDFCmuL_~3pLVu`gq*9<r2{C^XBAl&{T
zme>g4R)<((H-sAqvBZ`Lw=u*L`y$-gKA+zl;a>0a`5hAOh7iNDU(~I;kA_%cuY|ij
z#1b1O<h!2jNbH)B!+2tetrK$8PAsv1LJrcEFWy8U$K=Wv@1&4JaAJw=6mrB(EU~9T
z4zP(O)&=Ewnpm-h_bMJ3=qGs#dkA`emcwK95CtwU4%w<9oiOvxL2jv;ZNZSY(_gW?
z1<P-*%1Eps%9Ae3NbKg2CtG6c<1HQXBugxzr<OZc-5W0|%B3o?#D)(!8zq+5^&wB6
zy0>#vG$6^<CNXHMqhU!dFNr~89Su%$J4vj#89jilGs^!XF{m;cB~xU`F(WZ(Ga4n+
zWyo<NF>Nx*tTys-(G{Tl-Px0h*B<4Nk9R_M(I{<Y-gdgADdM94=~%`_7*qMoW%>;H
zlp_WuMx$gp40%N(me|fB?_1&!?`e_yD`JU_E%HC5^5Wes@&RS#ofzpS<SEI@17<o3
zxiYfyfSI1c(bo{M@fv2trmB#47{eew*pMyPErvl*Fja-zsThX;$CMTFbwVtmuaE;0
zVioR3Go6K;gV??3-A!#VrZ_hMnbtyas4W^L(^@D#P#KRD7K%e-(I}b1LUHITB6Wr0
zgB47%O;w?ILRTSI3glTFLm8&9kgo$`2{nbh1Q3I6BGOE#ET|?LB~wfouUIo-yf`YG
zVj_%ty@bX2JWMSS#=TZT@rhU~p?HnbfGH&u9~?v6bP|g9k0Nd=3CllRY?PNbY33|o
zT@{nT&jq%zoF_Tisu7e@z9(=z->6(equ3htP+*%xTd`N2xdz4t8s$d<Z5masvB8av
z^7jMn9ThM^;1_|mkP7H8lp5t<2ii_5paPXi`HY;lj0)Je5qpc;a<<KsCtk>D<3=b4
z+H<z;l*dvG1pBU>ZA0bx5d$$@eo4-@rShPMfoSw_&bF!YM23Ou8s%!vwypB$gn^h@
zpPbV+R#azddT+|4V^e3Jw&i?3Lk`wJOvd)D`cm8yticC??OXM3MerqHXKH;|kuJ@Z
z>n~FTf-iQb*3VG{axdl3%M^iFkNv6j>lJ~-j}2V)TNQy=jU55?&odHEp6mB3f*N4@
zTz^av)BqFc`fn9M4QvYS7Mhfnm`A%KBB*<I@pCQGbyS_5RuE6J-FS2(DjN!)XGRdJ
zY}0LbX#}C-q3C&C2*nd`_lXEXBSOLR&Im$NYzpoki6At{=Hc!q5rhXDN}V~A!V)ub
zw>*OIkZoG-j)@@DJ`_0%5ro>?1l_$Xf>3*#rMq)OD4wdj%OeQ2xB0reDS}Y@P}=-h
z1fljeb9c8#5NaRFnh!+~UJjeXyC)(DwYQ19`&|T~_BNY$i%mdFOzGW`5ro>?yxzSi
zggBiKrOZkMp{h2+cUvL|RkdlpdrbtPsy5em*G3SkY7>6<kqAOnZPxE@k04alrvC2X
z2*QK5`M-NIf>2dc0=S$>YMT3-CcrI^Ak^N}0d7?Uq4uT|aQzX4+M8m)ZHOS$-n0Ym
ztO!EwO-0}?iy+kA^aSqu2tw^mS>SGsAk^M82JTA{gxZ_hz&#W~)E1cT!2KwKP<vA#
zxZO-Xlit9z2ySTvq4uUqaP1L<+M7PXy)=SQds8a7i3mdNO|#&(Mi6Rm>IL^_Aw*q4
zEK0^37bvw{i#+ZlynGfHefRx%ygQN~|A9IGm6xAJ*{PQ>ErkmpF0tpJTESEmZdnLX
z3t{>S*B(Mt4Vcox9Ut8Y)~2~|W6_Ox^rpU$w|W(ihiW<ud5RZ=XJd*Cd1@y_orq~O
z<S<<jp0lYm<g=Vm0hI`aM*0pHgt9`Jkv_czp+TX@NSE7$r~;WqVx$jgcX%lG1-)Qs
zdJ;Ku=6(IRZx(rRHRZ+O=)QhbAru#nH*qW&KyyNA@#P^z{gCNh<grz?!ech&i#(<h
zqCUnnF!ER`2oKQIFmf8IYN0G!$a3_oDF|hSaw0un5*k2Rp_oX|lqw51hEn1(_=ypO
z+J{2oVIkCy2NBAMYoc6uZ$c6A_z)UEE?d!Z>!VzF@}YouQdAZoTU&DPiXfB~ifi;x
zrK+Nhwy5Oj+KEtMO)Trsc!jXFv1Bvf!~p8gybQv_x6B7UofkoPKvq~!EP?PKtFYc!
z0O5gCVSTau!Goc~z&8><cz~1A#$J=PjTvDhw<alVAcnUf5;qXT^NQpR#PDWe$G8Lz
z#PBCX5(i><W|7E&7#>$7b0CI)FcLZt!@nL$9l140u>&zY(@5?>40VYF55!QHwB!K{
zH8K@`Bzgcty-bnsC~n|c07LCeogYaWz);7ur~wQ$P0Jd<P~Wt$ky|rU+5m>Sr^O9m
zXhB-u0ETv?1rA_nM_S?lhIZH@KqPViLp#zk2QaiFEpz}wJJM1IFtj5rcI4K~lskZ-
z9cjS>7}}ARJb<AcY0(21+L4w$fT0~};R6`jk(NGyp&e=Q0~p$2OA3+v0SxU(3m~~Q
z@$!NTB@kd}M_L2{hIXW75MXFWS_lD#cBG{cU}#5L3;~9Aq~#D`Xh&KQ0fu&@B@tj~
zM_Lrgt%;W=B3T3&+L0DUfT0~}X#^PBkrqdQp&e;?1Q^<p7D#}h9chUK7}}8*Nr0gp
zX_*8V+L0DYa%<vcjYuj1hIXXI5@2XYS}p;GcBBOpU}#5LG69Bmq(u{8Xh&K$0fze7
z9!tq0><{wnS!|<?qrjm)f-*%~%*d_bqC{HGKzVouX+a~mhD#Y~Ndxzyy=hSc_u`qR
zWew!Rke3!VfT6u<X#+e^URvA$hIXXoja;6+bXwp*d8nT)t~kmM)?VD379H?haIbBX
zag-PAS>YL^MFo_HcBBOZV0bQR$p9FheOfd?ozdR3Yyb>=(*ru{f;y*1bmYT-lpfM^
zdG@F2F&+6(=k%bC=Q49}28hu#R7A*pl3I)r$}1znAsf}nd)<Q!?%1<InW6qc)@AH=
z<P3EXj;3G;u36hTW5@>xIUrIygkwHH2m+DXAsqApLK2A74&kT|5S5SA4&ks55VAme
z+$VRmC{#N*T3DbkuyFF6)3!~WbNaxx)3<ot1BN>&rXuA71`Whwai9~iSRCj=EEWg4
z5sSrv9>ijCpck=N9Oy$V76;ZM=EZ^h8pLoeL0SkrbHuzjkY`=IIFM&uGU7m<HOhzs
zdDbf<4&+(8j5v^I9W&xUo;A&g19{drBMx-1*5R^OsC>wEu<jXgpo1;QhyxvLM@Agz
zU^_D6KnL5A5eGWhj*K|a!FFWCfeyAKBMx-19T{<;lkKn_1Cbgc*U5Hd#DPw>BO?xU
zvK<+5pp)&$hy$H$M@AgzWIHnAKquRg5eGWij*K|a$#!JKfvz=JmP;!na$R{~8F8Si
z16W2J=;{QP5eK@ufMvviu5Mr%aiFUQSVkP^>IIe&2fF%zWyFE5wZJmsKsVcwR!!u(
z*^Z1j(9L#a#DQ+MBO?xUvmF_6pquT;hy&ehM@AgzW;-(CKsVcw5eK^2j*K|a!*-;V
z6uBO@BO?y<upJq3poi_qhyy)rM@AgzVLLM7Ko8rI5eItKLIIu;2YP#eWrqIVZeW?A
zzo!paX6Wzh1eO{4d-K3DLw`>%u*}fky9QWh=<n?UmKpl{SYBr6@9O}T8Txx!m&`EV
z%Y2z(zL#~$4Bx$MTW0v~<+I8R-+ioeX87)7oioFCAD>@lsP5x)P7TXb(@Xldo_5xj
z)3;ubnU{v!#H0fcH;PFG9&Qzr20Yv>ruk^NT}=A#aKo6?-{F=qX}`lwV^V&H+s6Jl
zy6?<@^Sq+_e~Y3UqHB6w31-eRgPD`e#HO}b(G8I|J*FhKx5bKX2)yYLC9%;hR&>vp
zUM9A@#fom!K0TTwHowJ+ZcGc(V@YBgT&(Cu?b9PkVnbZ4=tk|+<49s_T&(DxF{w;!
zl8Y7HsC{}2No<#k72T+PdIU*qoQoCRsC|0;NNk~t72T+Pdi2odw)Ef;^r80Ysid~6
zrH2#kv`ddB0q2M5!9+Xa(qoCV!0DkxJM+>biPXU9fkeCc(&Nai3Tw16J&H)To*qQB
zH!nSgNa>p%LbSUtJ%VUEUU~ot`Y?4&k008?mmWR>OqBhqaimGb#5+5$;@-oICKVH#
z(QRjL+y4A`GE<ou%+zHDGgX<1ZOiWYh11MrC9wngzrJuvl~`sxp++n{O;HDyo~3B}
zZ+eoV4lFaCP#cz>qVT)QjwjS-r6(xb(VL#1sMASLPt<{B#uIM-O;1kLHD$&VYPZr;
z6ZJ5e@r3%g^u$DcT4p?<)+s$LQTLmkm8iE$PfFBVWyTX~)6!EC^~jm=gu1Hqghbt3
zW;~&$Dm@)h&zBibC@N&e6X<WU;|Vpznel`Q<;-|ONhC9#P$irhPpH|>j3-o{XT}ri
z#53aw)!Lcygj(qIv_$*h)8mO0Z&`(82b6J{CD2?47osw2pwzEt#v-cWGh-2yV;QYw
z0M%GVX&FEVR@!RT7`Y5ety~9JrZQ`uRKaHkHfrEA0~?j-nSqV^^7O!l^6|9Oi=M!6
zYkJia7+R27_N3}QJt!g@9(Y<MDoH6l&C;2Iv_e!z5K<E_wjKX*W|fn&OnQ|Q+0d-a
zGG`wK-D{d;1CV>Fg0;|szO6~-04)v$=-ZoQ8PMV#jq<fkG7@NU=t3J!vKMG^s6nr5
zlIcK;Lj!t!ldK3bjyDJe-q0kAf+2tsZ)}ov!4N=^H#N!9AOM`kmkcoLX8-?%M*ntd
z`6?K%M%qc7&<eP9-1L%+)u26#&m{ekto~tpWqc}$TjAqVNjtOpmoanoyxBh)QB3S{
z#~-*$X8(eTiD*8?TN69k8BJ_rXEd>YozcYBbw(4r)|DD>SXXMiSDn$sHg!f5JJb<P
zTm5SuDsktvjfu>h*gVc?V&Axminoj-`fMlNle@%ucVdG$qVs71Zi2SyY?uS|Y=%tc
zjTR?#M#aV`mZ^i|Ha@8Um=TG_6UJ$YBpOT@ry-JPBw?I(NTOi`aU3(xbM&!+z<~5Q
z?PlzH#tB`2OdC6%@wr)F&%>9?$BGkDvCY~SCT&moV^3h?4?U5Njy#c$4m^>Ljys8t
z%>??RPQ;^wPNbt_PQt@OPQt?@PQv2@PD+Z;HZeNuu_h)Y4l*fU4KKPa<}jK#zQkza
z<dULQ^nw1&W)5}%6CGr(MvG6rhukHrfEm-MJ2wi5N+!F>T;d24E15WbWG#Yb+g4y0
zO`JJmbf@+J|0@PkaU25=)@Cf?%kv60TVXVDjEGU3*^ib|7)=}=Vl;7Xh|$E6Ax0CY
zg&0j76k;@SMu<@yfQ~d<j3!P7G5TNVFn85XDuy<jWr**y*h$4(XEO_ChBc{ZR>3H2
zNktkeM$<iJ@;DDa@dF3XpE~!{v;I52@=2WhF<Zx(uN*Bm+j98IL7Qp098Ak;0aq;~
zZRfD@XXDNA2eI*IBkE6L|6#uJwB_R*tbgwGBgg0T{6~&$)BLAqeB?=kpEEx4_?RH?
z{bPRQIQe4g1~QuQk)xY7HG^I@8XYwi1Ecu~ypyJ0uvA1%wZP~^e9Di}XA_HX@7zCf
zyjRJO98pspkkL-XqU=Y0fIjaH+s=R0_Wvy-d2DXsk2-$iwR!&2-qEN1{P=B}LVl0y
zIW?X8r~L;Szah==B(9yYWi<wQINn<U+ocH*hB-9BG=3~9V}7?bGCpUkjwlL?^?oLl
zJS5AKyW;b)jKWl7q^M&wJqb!4I%VoE*-#&^ZA?smAiJYuH+>h2N*wuQG&T3Z9~vKq
zWa@gJH}y7}aNHOTd{<<l2~mF%l9>|+AsMaljHfrw1W_JQZ<-1J5u%Y{rm5-u`!Bxa
z)N?M_dd`+vyXvf)f#f$Bj7~;dl2qlC2>raD0n^U&$-o|KdT2#7IkX~b8hK>S+R09-
z9I#$kJm<`_wr;PFoqBe>5ppq%=oewKx$W3Cn1F_{D7<%OQhyOm>Q6EOmY^-c%<Jz%
zOI8yj14@HUXiGCkB8xGJ?uP{>+y&dvmSV>Dm(uutv053cls6%@J4!WIBL`rTJv>=J
zLP$VK(N<a4HZ}=S0vjyRx_Ou#46%A9n5V4tA1W*Tlf_XK0HgdPV?%?LvbBj3++<Sw
zp|am^`CzU;&Sw$iGl~8XD}*I<CbL-t+05qBA>nPv)|Jd=5oEJ@07`>J>B`s$?5$a)
z#tX2QH8Nf)<9sw4=%)xMFqISb)6+Tq>|r@g397X*Q5&q%g@w27bP&`9#qvmD82MmO
z+-{I%apm)NpJbw!cK>&zN;m|ngi$?DOi)Kh1`7C>QD%sud$En8_>)@cexO+8>1wZP
z*pDs<@QxK~6Kej6mEj5$N|+0I{p<jBQvAQ6^r@8b*B=WiLh%0~4yJhL>;XnJ?}%t{
z^y1Gv7+FEHqYbC57t~jJ6w!uLU@Kr^r8ovlUL%z;a!5r{a(s)oQ8k|q5Ju?Lz#FQX
z2LmiZY%?m#ZGrifA|8sjSM_X;5a!bng6iuHSIzK+&;s2DTjb4GwLtqp*A}+#lud-C
zl|rdR6DQt|)dD(2K>c{<5s|N$dGHl8RDdes$jDs`vJDIus><dqTfw~AXkmaV2XEdA
z(8R=WaYI5kva5~~4y2<5JZuGc$SAIj7TPB8&qf=C(3p8pn-s=?*t#x|z2rgxC+des
zlwiAsm>^dQae}S!B4GhuR{XijZL7Ql@j&=4vTR%D1-J)I%Z-eW8|)`vyJPZIsfC$s
zxfhuihRzlWqxhm#j-QV$44p2-Nq%m&K+YF%On*~ihPFTs7!36Dv>8qqT3NdyzKUoC
z7?qe0Eq1lI0gdo--CmIE^nI-_3~;%@OL*`O0VCi1zHJ?tx63gDAwSYQH`fe%qEjy7
z??k|^$5w*DppT}n`SkTICnEf=;5vhE01R{%MmLSuiu&*;R)=mMZ0Q(f96SW8eI<Ez
zC{}R;ZH9wbDfsAw@_e;rgbh#(OZ=86DpBV6E}x1!y%4%)pi=H187mI9+4DSh2P~s(
zxOZ5#%H!(U=a1@zgs+|#ZD*_AjJuN6TQBDnV6lVh&A2&Hy^@UQ;@%}#QD`fS4eATS
zz%a!3$5z*oIv)!Rg|RX8QntDdh~w)Bdu3Z(2eJaP@g_WR{Ac(W3pEG_Xy*(Nw|G%}
z6rwmf4gOoc(+?#DtU_Q=W??YS*~Wax6@%-Gs1kd9y$vcQTERzE7KY_wcp0q>O+tn2
zt+wwCn>ZsAD2pLqLR;g<O$UUfC)tDpOtkEeTyKmUMEmaO1pQ-+#vpc5STQLU+cs4u
zF)U%&NIi(?zIfD{{f?RCp?@76tkSBhpMtE9-a(G$U=v3DaIaAwIDCfq5#5N+2mukw
z0=8`dt?c2)I2Pi#I}!sxM!7-4%Scpw<Z#4xIiQ4>q(9h@xq?KB%CPDvsWx0Jj815P
z^sY+|GS?+(*1*C#dwa<TnL`ugixNQs3-ft1%1hGy3;8xm-sJvXFu8AUl_hw?`zs-Y
zpj+ho77g_%zc@a^!6=C)rhJPr<(t&|oo_QT+NFUfbiynJZonrM=A6B7d;&fP4#LYp
z3(A6|>RBZoFTWnuAleCntVhIb{Vj=BMESiH=)-)`V$D}ITSByh1f{ojdXC=nz{|Sg
z%B2L<<Woa)l~y!4x6n2s5v($agev-S<|Xe9mFi%Pk*K2H9Q8`yDY8dT{72F45!5Jo
zgVhT$o=gr_R$&@}k)F<syy@x%SaTdG^cN{;oFnI>Xx<*?_$GvHLkwZ_eiOpBDTc7Q
zzzJd77(>|n;DoSkjv<UmPRw$9<REPoSQbw#^lvJ#7a{*r0X-KZ<swOY8n9qoD373L
z@Mf`(My28#S;N_GELZ3#(A&=54^@tDV*Tx=Xd@2ld2lGm_g5+<)W-|<ibMXpNPcUP
zF`5S`p(C3SIWLxTTjV@6S!CyooXC2KT;OI4?aF37sZn~3{N!fq*`3LWjDIR$y2uEt
z-<q%VBhM&YT2+T2JdZ~66+Y&PY8pWwRjiJoi#(|qXB(;(MxwhS+YBgufl6;nFIbPm
z*7!(aAi6o<-LWd)%{s1Qk^F+In;?phwx#ny3<{-|Y*MrX3JecQ<Oy4b&&7{qUQM(-
z{EYFj=%dDp`N%*~BC20E--G7OQ7sq@ORS$yFOCO6U#_=!z9deJzc_FHe4+n<ZH$g=
zilO4`;(mn{f(7(QOy>tp3+bpyqO00LrpPK8O5Ce6SxRJ{3<>+hb%dS)4|;^(zBjJE
zn8wv59jc3x^EPi~y%m<rAYrp#@TS&RV`d)q^AUw9>qupMWFRBCDmmIuhMGXO4xz|t
z%JdO1c~-69KZB4`9I9zp7on-pM4><|+J1&2I^*YtPH_zLI{sye2bDl0GGXZ*a}7+C
zIk$~$s-aBGH9Y7ozR!oncZh3v6TH>;)=&Y1A=DdwkFca(5f6>(m^S3|%EbsvY8dC6
zc!uVABk=o$!e`q*-H2vI5sIE(^SCsWag`&anZfHKSIrb}t+-im-WX{ur<V>@YU2=%
z!_mjjqi&J6VLYgXi43r2i+gXC4`L+k9Vfx|IA(Gmm1AP0EKa2iU>4FSeM}CEk+^T1
z$TxgqLvi#ZJo1mrmod^8#pyN?ZIu2>E{@Y_6T_Gj<2impo{y21sA)L=`lS3JBPr2J
zydby}Y8B4gKP6wu$Z(|ZlJr4@Q%4VuwrMumD1BOfm2tzetf&q}6(prb>96H<895e1
zy)z+|3X3cZa+%=^@^X#DeMd*uNvI+&0UHy<M(K-kfQ|H(m|jel$2DQZ-BKOub4e5#
z>Jz^tf7vWE#nAU#x673_(if%DwL9hxdDuqU3urukQ<XCkPLc|>f#O(=vsEyUv`1f-
zCvIdu#y=M(hdLnCE`lTRGSm%yMb5i%-_j_n{&vj4ics_5&A3yJy^&!-aS{gXi)Hpz
zcgfK=z@tor5vwQ}%tFB?amQEX6&!agf{3e$FQ0q4$_Ib9oP{GTA?0Fn0~K7hFNx4b
z>1*;Wj(hfvFpVR{jm0784;rO^klS&j@1gWc|KunuevcfH173hfS{R3N5a2(`F*(4+
z=yfpWpotJYMh7I4-7AOXNL&bm`2{?E`~zi-NZ8=@PjX|9r2U6c*-CX29|Ip>l`1Ms
z^w>+^CpYKFv~(1stHdQ{K_3g{4wuC5mkV@c*oPmK4TtDHF+5kegz<o!qa%3%ZmSGd
z<n;3Ea+VJ8aR1u)lI@elhy}T!P#qWs3-63#iO<fe!XX9KD&8f<(o`zlQkYQZT~nlA
zQgn5Vl6Oy$PD{I}NEZw@73jygP09PJ*eAu=<l&^tigdl%fxv`h?6@NRHD{eyq`A|9
z#RP`jq!WuYdpNQ{+mpU5(&_MLQAD4aaA}eLxZ&0UFB>w%t}T{DB0gpY=$nSyHWaFD
zX(ty;@MqwSs1EX<p~DMwpOMv0{Lu%_OvXDphD9&DWaa&v99?1{-yyT)LxrI-oPhQV
zSr2HE;|ydyV3w@m$4O@!j;=M3ZGU*jfUt>gB9zr)tz^R4#sS$}^t=%&FBASZW)vo8
z98ygt9C9qn78Yt)6An5K$!6il1Ix(tyg?~4;kRQ()#SvZAYn7%$z$JSiRkGz4HV#U
zFX7kYzzB>UgbjeEiB0(W*jL?ks6UGCfl(3f_+x<_e-!y8C!BvQL=P?1@`|>BtP7BR
z=+uKklD_is0(j!y)!rS*GPna7IdL-XUS|3RSsE3=_ltf)ss&Xbb`<hLE-z?mXT*wH
z8~ujB=VJj2Lg>{Kv4k^`>3zpXi-opzm1-LvKl-?8VQc`#SHsf?c!QRxW$N(w=r&X0
zhz=(pd7okp-2uMIicNinH<ghd9#&v_`u6ba4-YReoi{}P2_9VmU9msRfb@L_3nz^X
zqBT%G;t`wP)t_!ahQ-m?=;vMjtOHW#4d59-`xu>e0JOWGRRIpqJfvWlt_@E<06tz*
z&~RuN*D6lY^fIXkYOU2T=GNbAB1FO)`8>FY#d=^P;gGz=mJAa<$@jEOtHOjc12+b%
zcdT8!T9@!yKCQ*MRf*L%`S<0b8{B=%%{T5{7!4}Xs8zl&a2Hv*dqvILz$L;)`O?5m
zTgsv+1<F{B`Hk}BfxE#H_l*)$qha|ifxE>rEKO#Jbra>Q19!XSSU^YDtGGJTD1Rz&
z-v|rlDlw+aZR_yXPN0*d;>@31MPuO9xVWysSM>J4{m^b&R2V3YRW^(kF;CEU)+pZ<
zxSv_#o|p+%vA#S&iO<_6LP?7!3jL;j8vrYQo{jSTfqTYoYlQ`6emk2Qk>w)XvIlZv
zZi%sz6$mXU1K($Y(>1(+sq}9LZeN%N;(hQ}fX{nmY_JIX%Avt!;CsR)*g%}{MBomy
z8?e{~-<ai}1a74Pd*ealVc@}pg@i_u$UJ&v{df%iiG}u(kiK+s4D*nIk#!?jeZUeB
z6_J>1L`IyE<5131MzKbXPC}0f%|?&G={B?)5WUOi=G;1~$bmu!i|a<l!Zncio<{ln
zoEx=#%Z8zaz?UaEJDKHzoU2-v#WnmfV?*qz(1Bp;iD!CI&TWiR(O|B`CQ>iSxtCjN
zs!_#_7>L@EhN!d6j&j6SsdtnkHc`E!9I?IX9pykfLMu``$`M<#-cgR&tTl2hsi3oI
z>mT9!N?CP;vcO|Gce6c=W(r`9@(*(E76ax_j`4%Q>;8DoeL@(#wVZm^S;_4)+anuQ
z?(=)?wp+c$ZQWbJ7a3dSUd7ld_rPKWw-Y?UolWor_hrUvZX07YcPC?Kxbql0!#&I!
z&TwBPc(L0~@M8Bh#;$Txj9ukcFIR96!JFNy3Eu1;<$X81dkNm=E+%-JTeVO@2XDB|
z-N&@M-D{Y3w>y?;ce^g8-R&M=+N18ZOncPjnf9pbVcMhaL8d+BUdObjTqo0>a(zsD
z$~}ZMHy>s#-DOBNsv9|sdYGvPG4%~h71hgBQQu<fFjL>mR8fx-dj+w#5EJ!tG|i}Q
zGxZ{-PBT^1cZpp|?3c_Z>U+dKOzaxw6ZI>mih7KxpJ(dZnJVfxOcnJwQ@_sC22({n
z%~Vl$?H5sHJOINU^wbl)_XoW9dfqGQN5q~cb|W!SPZC=MGuQ4N#6<m+*b&6uMNCv~
zNksjescV_~9;S-=1+f~j_Yo8IOJa3me?d&t;jFW$UorKyO#J{;MeRWzqJG2Fw=wlE
znJQ{8riyx+sUKwOhnXtscf>wJ>=t68eoyRPVjm?YY9E#&s)^WlnVKW@OH!ZkR12vE
z*c<BRlRB8xUwdi+sSaX$kQyTOcb+<wJcR8<>=dSc)>AKFs<0pPX^7g+|4r1k{Ud52
z@7T_JKj*2#d9SeZm`~JVroNT=zTl}NnNQfy$V1dVOnpD|eaTZRm`~VJVxM8^9iG~c
z)P2Oh;;D=H%?R6{*keq+%Tt#yRoH>Vo@VOZo;sM+B3S2khmtyy)IWOa8P-(T<$M~V
zUcl5BG2h{&Dx~iB)Emi7*cH4()R9a*o%z1*sW&m7u(vXws1;1TnEC$MQ*UNIVOKJr
zsH2&B74v<=Q*U8DVOKMss24KzX6E}BPi<n0gsmd>cT9c6Q^%6Jmsp<E_ed>bd7?Ur
z{hHW!Jk=myVco>`qABoy^VIcB71m4aFs6RrQ#UeI*fR1EwU(*9%=ZINy@UCLEoVMa
z$1!!3`TpHg?_xe-2QZ(g7c=!#=KG<iUP|ghVn6oOU+~^(V%zwHL~Y`mDD&uB7J>Q-
zQ;+34E~>zLe@kqD)ZR4oT_klFso#?7CiMxHENTnO6V=O7L=7?DI_CRp=G#Q-IHrmk
zVd|;GN~A6%RVH->sepHg`mCqUCJ$k+V>?6@Se~e6=6fga{hX(^@eX10h<%)?U+~m<
zOchpSDWY1LdI$4e%I6|#JM)R!ovHUR_4P~@HN{j>douMAroNG>qF&8ZQD0)}V@$n+
z)RUwxXFGmLYKS!ubt0d^0+<DGSF;qk+IbtPK4NcRd7{3?QmVwRW9nv7mort=4aBw(
zyNT3Uq-rer5>or{UQzdW>I&9H*d+5^$$U$hD(YTOy_NZdZD79lG2ebn6?LDdu4F!8
zo0#uY%(p*NMLpoDtC>&O%b4#@=6jH-qCUvl{}ZvR*)~xhBKA#UZzCq^BgDQ>>{?=?
zZY8z^2GQMh#6&&Bk`E$w12Iu=V+};r_%De1E8cqy^WDUJqCQEikJvkjiMp2eiuyED
z*D>|oOciw<Q$^jz)GAZo%T!S}FjdswGWC^AeLqu0eTG<_*v-U5{XMaBiG7fmsLvC-
zh}egSiTWb3ONo7in5f%{y_wjp#6*3W*fqpHMoiS5#BL<^RZ=&T`Xp0DJ<R9#abou{
z^>0YsOX^Fc?j!Y8Qn&FAQ4bKipV;3L6ZIgmZxVZm)W4DXd!~wdnAnrVK2J>4H;Mh4
z*cXY3`WCU=0$gq<ChAdQdlUOIF;U+pwm-2uiHX|6e_GUcnR+-=zsgimXEIgP_n4Yz
z>erYmYAaJkJ;v0hnff@X0IEax1gQn2ene^!sV7P8N9w1f4k7h(Qb&^d1*v05{gPBC
zsb7(L5vkvhDv)}b)G(>vk*bjTJ*ksO-NX9HO>i@1)=P-ZBXt?6R#I;!wL7V+N$pAM
zdQy9ndN-*>q&`4u38`C2?Mv!Yq)y=%`WaHoh>2QGiavYY0i^CGbr7lhNF74z8>HGu
zJxb~oETtXV0(UB@K2m=|YJk)hQYVwTmo54ZsryLLMU#7gR5K=K?m<#}k$Q;K0i+%#
zwVKp7N%fHW7O9t#dX&`Zq`pn+98%vU^=eYzBXudM$4Fg4>TyzUC-nrWcY>M@;Jmor
zf`h<Nw<3gNbezj303r-6Ufej?sITHdduCY0(<aEEQ1M{&q(=P&9=vDz3G{S^bcKos
zW93G@hBMUVeug-Z&wKztgrVZi-AXtEF5sA;5D8~Y2kQ}B%+n^r41@JUjrvuvaxl@T
z-wc;WrAGbH>7WC_Q`5oNa6{8Dup2IiWb=4!6g1~mIEz?4si8>}EOm@FH2ncp3#n%A
z@eb)6=#bnk%DBGT(EJCL!MPwK0~XE+5G;XgZfM#w9Sq`DPH}kn2y8?KSj^EJ2TcIR
z`3#PCmH~3|!V~F(4b4<gI@`es%5+d3XlPo3Q=~Z58<NBQrG_RU)4}HPh9)7?xy^8(
zZDcS!)X*#hHYkQ7GT4lg4u)urGQpnH5R?f67MgS5d7>GV<Z+N38eAiTA>^buj<$gh
zh4ATsY$#@f0%jDPs7c_)G15^qh_d%|Ffr1Q96KEh_ctW7qUGR1Nfm8m%S8rxltTd(
ze<LUgqxfIfHzaNX14V&yI_LyNkrBn<QBh<>wef#aPy{<Lp&-ViMrf7DW^C5LpF+us
X|2;TzP$G$<I2MsCHZ+V(O|AY<?P)_H

literal 85579
zcmeFacX%At**=U`lD%Hb>-BmqA!H;i)qo9FbD^u*YAXpzE|?NzYwgv8Eg4Az7(xl5
z1R_Wi@KO@edqP4;FN9E1NP#4zkmMx=(t8gneE0pFGiOG!Y_GoS{awH7`o4GnnERYF
zXYc2pGiRPT^URr<Ym06#I;`L@{;rx@F}ZXsyE8kM9odoX_V#Sgj<pQ$n3%$f&H}Do
z=GHcD-#(VTba-%LcywfHvT$Q-_tfO#{-&;(<yovv^z^s)&$ePo|7D|NL$j?(G&i?)
z83p|lW5Xl6rX~w&z_h7<LuS_cTrs_VWHtV<cvJt@>BWVsS-xb`$o5fhWT<&`DC-+2
zTwT*MHJNG}-o86KG(0iwZ@ER2sqWSRT{oNkvX(J#@8IqOu3y%)?~1{ZiQ$p#w10O`
zE*<gqv|he9yJI3d)SMgKJCPk5pPGy`te%=YeDCP^IK?#XM(GHe`qFIE=;+1cQ{9sb
zM+Wy~TSs>79v;tOYc^&_vg5<!)u&X~RA)xVv!IAi?AtrMV{msrsC6GjdIqMv&Iop6
zu4uBbb!*R5Zr)^3>*b?EQ@N<0i1~?<$%5LcTpSfIADzl2CL^nnO-`cqfGJ=t{$H9~
zkt?%R$}LuO=ax@K>Q_(YD!X%4lL;E|sI1m1%cUocltL?|t93J_6n14Vr4oZNi_lT0
zI&>{{Ageln)KRB8)>4O7feuBZqjs&;u@r^F6T>@HO5IE;MOI4pri@C#zE>%VkfI1F
z^(sYkl!B~E0a8l6O4&duS_M)Rjg-1IR>~3-;>co~)Xx-BY=yM6ZqnV;lJzEZ_m~8B
zk4ZpFgK9z6>>gxQ3y@kGRLdr6(JIiQXthAG?w)0&%Z`nXjPBV7Jq<JU%(HqrdiqsQ
z$0+(6yNgLck4ZoeHV@qeS)&J8)dQrSHL7QbdbA4kDB9gbJr_)&tiN$;5Z&eo(t3lC
zWE10~Bh{ljtGm6CDc6DK`{G(Q8gbsxE+bA86sHM@LpPu}uIG+JR>c7+Zmo**R2-{N
zoCmbxYJ71Un^fF9(&89%LZVhk-=+Z-(&tT>Rx$|)F$oA+r$Uf5LXcG<Knhu>LT;oG
ztpXv66q4IucA4e!kD>+Ec7G#e&YLW*sqP=t&RbNY2^cpC7+<f(ku}DVRpUS!U$4fe
zXk4qncuha3Y?omx@QAKb3to0Nc1}%oCw%kJ=pN&Gm<csY%t?dKfV5gCt=5-j5+#$7
z8aNE>A>>sXv(!d}wwl${W@<s6)`Gm+KwhoiqpQ@4kyjg*XEGsq3$47)cE9C1sUDrX
zMiXo~O;8@HKweGfu#tzX$^%j!P8=!^S+*W)vGqEGK7<y~)~hs4#`dZUt23F9x)P_(
zZ#-XJt*_1`s18-wc)mJhRUMG()K!~WY&@$D|MvH7Eu4l?XB!FX>ci?xCZukWRoC2x
zP1au5oEtN3rwO*5CaA8?v|Tff2^@UPsyZOmsRK8~Y&+Is+Y#;YhyLle9XLlvhIj1F
znhw`HI5xO@c<<<*><ES-?s$wlb!Y+Yc)q$?U!6%%9Xbx%&R2)5ssmD;`gBu^ZD-Xf
zs=DI3H7o1<lT2l8^)!LC)dvu`*a~dj)<=Owtyhep-}5Z23ACO`P#^XU^dWCr&-!^5
zQ=j^IQw#dE7Ftiyv>uNjb*-)2y48CfPHH`NgT(mI*kEYyCak>f);7v3?9O6m;LNPZ
z(;@TJW_-S8xo54<CsLdGd{Yc<S_|3~tu}OlY1)=!Wp>Z-U=I3ftF1mHX6ReuH(&pN
zX})pmZ(B9N=F<cv8qbfsX+G=uSxkxQ`Asc0A8WDsh|`*H1q%B&PI1|&%jT&peBnIW
z$zsp=-Z*KMb@Vi8%XN%y*OpU6%PCTpIS*)-EoaXIM9R|hfGLJ7tp!<%MpivKwjL9v
z&^N!-n(u{5?6^oTc52i>%m8hh(?IXIb+z_1z+&3g(}1Z3+ghvK{8vrSuW4AlvZeut
zJ@y=$rMC&gX)J4XS*Oc-T{dVFRf1u+o*y<2?%s_N>4>)nd)JmirmsEaYwv?I#WB%4
zHhQTZ6DEP3Y7*FjT63~MUUw?9JZ6b09HjPS!7R6cwa|KsruFKmp69YCDYIkSLw$dl
zmC@SVZ2H!Y9lKRVt0vgDG(j1l;i0)>hmnD-$^cS^Jt?pj`xa}lZxL<Z@^@kxDKUT_
z9G_6fcFt&Sba$40+HagvtE#_yqpIp3#U&9PhDkt`Nl+D7p{k!1(6yLVRY0n;Cj%Bk
zRX>MoP=$XRRk<5Y%QTaZBd-3@-J^Rj_&NnCzXWG_<ePaxV_mVI=0E&&s8P$Td|U=n
zeqlTN9vq4y4huzUuT$-srFLXhJCNG#se;AOuC<_D(X{9qcplxc^H2yk5;Wl9RzXK=
zpDO6!Q40l%JTRH3f_hb;St>wQ6#%Kgo(@<H1zHOV6pexgw5#b_C{$M#XehTDx*E+@
zMwc0=6)Hl5A~hJ7uUTraE}uvZ*5xw`4O$Bt6saM%$p|<eCE1Y)y+Y^inwG_G+F#!h
zR$uG3R@3#b$X;x^z9!i9H9?7JXgw>T0wp4=%><-G>-kv>iTIc4`b5)A^>B3BO!G-O
zoW&vLcl8RZqNTB0_f*Rux+eCNB3en25{zfpEG1aaPNW3u*_nj|t%X)nR0+j3wJUk<
zH(sm-#}(Fg)48{FH|ui1xOn_!n!e>$Uz@okDs1B+1bvFor$~Lq#cP)Otcxd7pLOxf
zLZ8-xK1I_+DvnO77=>9JFMb0ZX$5rjbm?yD7-jS6H5n7wO{RnzjH~Y$ML9KCS5Kq{
z>*|?>2K-BRlcH)UtXs(zq6o|BYpApu8Z*XOH|{a5P-GI&U=q+!XPh<is)1Q{6(Tg$
zS!c~GG-xffgCaHH5H|J=pKrg)+V5#nhf>tDeb9t4Oak^zg7%G<M&8)BUYf<UZ@o0L
zu&=dXUs3HZvi+2N(>zMGzZ=kL;M0mbMn~vyqAnG4DXM^9zyX6wMg_9k3P7r`UYWIY
zPoNf5Xl+$tul;-@elw)4hD^JjtO~n_adJUl%n;ER6=@wF6V^40e!#3+2hzIrt1O0f
ztp)3fYTYw!P>hnWPd&<7?`~|<BemOXf1x6*E7CeT5v+I9-O)O-Y8^=H)~B)<*7Z-Y
zuBg`6TI(obSjOM>qpkI}Ml;lE8#F^LMIMLD)4K7dnx%E?O^LK_y(zP>uC-uYF>F1G
zlEI5F_TcY)0moPY+gf||INX-qtNXvmB+v&<f*OpwMBcQ3b(bur2J0@Fg$At!4T@n6
z3&;m=6y68Nx>nGE0fg(gz@WAQ@>F2FrLJZxSZ_(B0_!cA)mFftv=xA=V1?NS^YH&&
zgSfi&+u%6Y2HF9!#XI~qU_#q~2`VuD5H(C2SbxZ3DzN^LS#1N<(l!860S2V#AL<Iw
z3_EgzW7C@9c&j7Rs6MeUGpH`nAP)rQDZ)5J&9WJ+LnKm!b%@MDgw}!xMHNw4zY@oY
zIdP$Ma7QlG7Au^F0qqZ&!HEg=%O-)gFbT+Dc$CNEASyscz4b{fhK%~vIP)Re!K}(a
zEtLVRn2clwrq~`lbNEUoa20Zy?v-u^c~9__^mSS#W9CGj8Dv70FhM0SO(o1yiS<h?
zrji<~#CS*i-6}zCD(O=tyxucT+VG=usEiY>jIK?cDx=H07-txqs7wMfOoB3C7c!7H
zGSJF&5iF*RS}OxtG>FzhgD65q*Cx{-^^n0JVppdLB3gQ1&Pi5IM;q91fzdIV8&NqX
z0XZf?Ij|2o9jw4s0kg_MG3C@*Imki|{-v#=wJVVCX)}7zXr@^VudidJ)zR3D9SI$c
zJ0`|ehe<$(Nl*t2LkIFkhxJ`7rjB~616k<MT4)wUG)p56Nxz?jo27#E7!WF8Ac($G
z-H3Y)6SxEk`p_z?vaiPsR{KWbdvR(}#1W-PiO>Xznq^a2*T!N>Y_JlMg+#3diHeZO
zOFbUieg~R|6@w!o6(?I2%{^#L6K5J7)5fZ4W&(|65>x^fC_&ydmUVF~rjj*Q39?Y4
zwV*^1JFTX9hLlA$)vz!;GLajersx!>2%XWymaL*$Uy(^r5hOqn@<x$$c`T-)wN??b
zP^7h>ND+!^eMRVH+Km<=x-^@j)mG6)>-%t>t$RuldrFaNU><5T%ROa%AB(AGomGP@
z)MzcJQN*6wh(XTs+>lYS0HwIDnAR>eRz+(sdOt4lTFuGOAXI3cDqt2WGz%5D(Pa)T
z<ALkfTNTCwYb~fyM4KpiAOpp`Y7TdpS}UWstyd4O-rTUZMv+ONznBD+&@`0v=Jx8|
zVMv1qIg8OA4b}-Wi}t|3^dRrefeuQP-^Jt?l5}|Q-sxKETvzGRCTZp{9EXr1nnaO8
zU>QO*%O*j`QXwd&5bJ|k3qrIOnnV#ont2uAgv3zHyN1)+q~7WnFu~gSHPr)XH}yI5
zYHTt#>5^0g2~dQUrfJXxRS}A*$hu?Jf+DR2MKuGUgrb@O`al0Nbg{KIxEq1nX|fue
zEbz>moL?J~RU63ilavJ=kcAQ>3w}>!p_sC)TV^fD(pr#JYh~3MS#~tJ*jn3P)*4@y
zyDcy<tgf%9MiX>7nxG&k&~`%S;GVPonZ*=j{WG)LPNoah41iACsXcs5p`C{Jj85eC
z1wMGKlcFtz8z{b%T3?DuP>S)x$QvnebJ{k>4>wpp%v#zuMoO)fQahkh>{Z4BwKHAH
zIwxg-JF9qLc*4W(#?_8Z;cCaGD8{&A6c{n^a4N>Q;s)!ASqoyc7Iu^(+GU^}CYI;?
zVZUYd&z|e8klr>uFX3?BZT5~y=mE|Ws(@MSo!%U>+&k9&vY30vx?g6YLTf>VB2*~<
z@|?Z=i}C=^A`TYpoKvlkwpM%nk+s(!L>%31M5-`uSF=<B&!%l*+-`$)yQ~EjS_>)^
zp+d=dhD4t>gFUPn%U*`2_Z#FitE0n4l{y&7hnG==4n^vKVYG&3p<@mFn(9C?Tf;hD
z)`E@>UaLWeB6M^#_J@w?MJU!lWyjzS2Dp7Gr~CV+6~0Q(*1cKu0F3x*G{Hkh6Ocpu
zJal?7B%~btgK}65Icu!<WfpR@7UU>GPEBuXNDdqtSZx?yN1kUmA^w5m3#s*mm;{Bu
zGK3&+gy0`41jQ6$y)SD)h}MD-MF^=iLTq1!3!5S2On>Ke<Nx#EV{t#*j5>>JObW-1
zO;HPsvr#(G&)6u~>#7CC)MEWEYq3!}Fsxvsur?c|gF_hK?>bZd&N<6T!QUaJHjq;5
zq}UXtz&4x3mr`$~pqNsuuVpPZi<P3a*(^qiJ$RfcU&`4|3jPi$b%B&RC&i{H1-2oj
z&X;1nEQ=|{dRb;61%K04(b|wwH(iQv%9qmUOKCxm;zfZsgnqzankLX=O@cCvheh7(
z9P43OOc@Pk<iaduXe}N<tX%<?O*G*AiDmUwG+7mWb}CGtoeHCfV_1<Aj9=9(`-k<b
zET#nOSDA$btpy2+9Bfknt{buY)s?KniY&)*8r=_N7#v0~<t4)2QA{D)w|6|Nw*n?k
zwmZt#y}|0{y)m?2v~g$%H|xyJIK4Nvag4suC9w(XO)IvJ;~&_Bwbl)-F>YwhdW<u1
z>ARL)ygOIk?O*((nu*l5;+`J{g41rp9l3EVo4r^qXU8Dh+?A_dp~WYtf6~cM8=YJY
z*-eu>AKH!d*kq6n1UGX3`GUK1sqS29_aP*j`-SFC;mJng;1Fh(p~1(iCq{jlfnK*Z
zq`A#$#^v0MCJuDYu6bG`&qZ^ihQ3!fkM7xyDQiR3=A?7V0h)P-trk+<ZdEg`4%HM|
zt+Ds$<UFJ`3C{;)4=L&9@!c|Lx&&?|((Bc5Rs)-PGO~^*$8c}Jp>BEuZxYNNx3_)5
zMDNijY+}DY(czS8pE!V0CwdmCvo`F03eEk6@STO(y2O5RXX_H3PO^51|HG2aEfI4w
z<N!TlKh?AJh+ZqYsnuKzHJO_hg^F--ia6ZXn&FaWdAL~@x7N70wQH<@;4sDY2#(Si
z;b`g_&?yc{{JVN^WT={<4NPs=WyftT%?OU2V}<l@>Sxz1>^I|BgAk&53V~(xO3hLT
z1n^wE*0}q%4OYmsuIUTuhm+zow)yz?;K<0Jx*)aQXRUX%45;;vp$RiuBXYDxq;)tv
zSl2A9(>>})0OsiF*IDZvmAGaI2U2j}8MZf&)o#DFn=yCQ=Jk$MXUvVY;@&Y$;c&Dm
zm|uru59W0R%&)6A=GU3C|GGM3p4q^>KUO}zcWiJU{4h=<`2XNIrlaEc+piGUa5#;q
zxB-8cwD*}^GCZb@(of_rAwt!9$lxwvmb;|Z?h-RpTU%or1+@ZIlf?}+E8Sh$F8mi!
zTb?7_Eq6O9bj$EKCbCg=Q+A}9^-wD)?8uH|?&!FghG<xV4cO#1pcfm^&G7@OAdT^Z
zNziX}=Mvqy<o@oW+nkRV8&<RwuHkoi7>4-mv)R%Q*jXh5c2<cZ+D8%X!(M{+(JVU+
zI*WE1^kjCLwYGiGwL<M<0_!|{2AcY{*Tz9GJb|qz+Ic~`pSD;XTiVT`gVxdgqzD~~
z?7Y}9(4krGC+r_RbYK`d)~>cXru80lUZ~fB$r1P?cSX4Q?KFg-O}1Jsy^Y)0XXc|r
zH(tT`G|n)+V<w4_ho7V>9Kq~8b?2Jig9BMrp}SC3y;X(A3R=hS)7J;xm(;lT;QWg}
zErPygAcuiS^|_c?zN<QeUKH;3{{MoB6tn+hf4*j1dk$evez5V|?8a|w)g6IJpO_-W
zO)sj^1TVBSfz4ir*2iWeuba&yo14vIZ1y^P(6BhP*?N9OBpv+pV;%mPpYz19RW|D;
zlIi>`ltYIpbCb8~{1PPGEUv<{&N>U8_&mE6w1QoT@P@w?wf<I^1h)d61zUl<*$QNJ
zD<GR&QEPVII*xp2`a^bYHWW8xO&7+yBUTCo`*X{X^aUbWA5=gRTf~;PqR+RYTera^
zu3h{J(QX{<#r3AP86~t{fhy?#jmCS{aK89{<3^o_fUVJ<f9CW7w{1*?&>9tJ+F4ii
z=dy#lC+s8zEAs*;6Wts#8|-!%nGIo?$QYSCAoll8nB%Y7mK%!cErqg~d-XzR89M`(
z*G#j#CTtlQW0~jHgIG2cu<V;d5@j<jzr<SZ+l-;Qdg1xFsxbyJKz8Xod~tI6<&fck
zJMQgAzrD!X+1&5!Y#ttWc3e6SJBv`+oKmKn7_uh1I%onHP<uIFhevpE>t0Qvv)L3~
z8+ILzj;;=zH0W?mhg-cC{fe&5p04QtgQLSAt8{gkS?w#jvJ(iR@C4{j4MH=w?j7ch
zp>S#7hO$;=Q)3@h7B(6GYY^uH%~KxqK%QnP&mO!yO;Daac)1aQJcOiHLa&bNe2GiI
z;OW`BrrIO}EjwL{H66Oe^m=1jYt7R8aI-@PmDo7Cj<aWJpUW`DvPx!etLjjVK<h5o
zZfF5^RQishTGL#r4QbtzP1ber=J$TCLx-rQftqSnBPPGQCJH$Wj%l>z0tq?4xpV@J
zm4F@<($M8=pkLti7;vTr4C1B<I3{Q$CnVH`W~vx=DuRaSwwHs`nqdFkgHwX(9xKqX
z8aey43!B18xktH1(8lLkcBU$}gLRbR_62&S8M@VJBVdo1L>`B6v@X=ZmiS^vjD6>J
za($?Qk=C8ujE$eg{b9tm5>2ko_q_UG$4;A59zHP91$AB4%!nVXZr3S@qaIfDWydF2
zm#wh{58aJ36YLJFdAHTv(Z`dU?G?QCRhN@TL##mEAixpwBffpVD6|LmSfjoD9f8r}
z-f?|CC=Z*9d&jfh(C8}E&+g6fYR>K45lfxny>Podrhgr1ERH!L7#L}rFUSn;*fF?0
zYwwEd2zb;Hq89uz9=Ag!^~*IT1;1=lbbMw&jsoMC?SPz@mUMh}K)!C~fSethlkOH8
z`WYJbIt@H%7|3-RYMlm~;>Zc?969+KAW4V4=1Ov{y^`c`Fywsou>+&Q(9h6tiPONN
zh7nw+q0VWrDQYk$02F9DP?BnZ7Pf;8`mLLG0?64}XA2GY3;|<K0FN#X!<>M6C%~pC
z0Muv%6c_>6S{*)`E0T5gie%liu|KXz&_<>a4E+oZ<4yzE)pZm%INLUrNB>=jr|!Z%
z%^r&rKKnWBYW_*0CX>Cy517?tki_}4iQQ^859uB`T!oI5y<~9vzCm7-uvc9?h)X+W
zGFc{#JIId6;GSW<&afgpCn9jrI8%j0)cPXWuVxWZT)TQDr@(7Fo`B92=wQ#9O-E*w
zQ}^6Ke5uo5J+z)J>p~jptcGUxt64PY(`72444o+uz@B9Ugv?!T&GEqozugbzGdNvJ
z`H!^EHSjrIw6lB8LG!rBiXo&%qW3u?LAxHxh;vN-BNa+oJJU$W$`#H^&~k^e!Y5;N
zQ>wz7Qn#O#keMr;ncz&9x0z`hQ$N$p=Ag-5>a5tK4c*{SRya{=|NYW1!%E1=Rlbpa
zjw1bGQSW#rJK-O7z2jJgqmDu8**Y7Z$wD_&t9^bG!eAF}n2+t^6WRW=FFf|}Z2Pp5
z(4*c#wT)wg!~VatqxKA(gv*etomSh2CW~?Q<s&~h2iX)|AI>IleZAwTMcHUQb$w_W
z_}+Ck>_HD5_<uj_u|PMVS|9hp@o4N`<Lm~#YI0!%$D958#(FuigkFy(QGxym0FyPm
zi9K@w$zi^~lX~&@;lUmLhSxOIuBvI^&f0({->V0~Kei7OV0TwfuZP=IcF-|%Rp_X`
z)`{*9cI-TeMPMn=i*;-w90J-zXgM~KhI(h*?D5YG%R{#9-p0Tx6s@w3^g3(5s}VP8
zUB_zO+ck*Wm8Q8g3G>aix%imN%;xfU%;9!Ki@QiVz8xGL8s3q$(`yR5wST<an(WbA
zoBj!;XNcn&W3gw*o({30y20oh++Yo|&)8spCoLoa_6h!ri%ma5dA)1i@aFZ7g<H2D
zTYAs{=#n7F7HU8fBEG>lpclmMz#MY}Q*<}I`kghx>Ni_5un-=I8WT5K6I=S>+x%Tr
zv;|RFzrBz?&?fj67Q4Z<iROm7;7yjlxu-YaU(mW2llpoGJ=Y7HN3nYLcJhsE2(D+i
z_d~M+d0UZW*g>Jot^-t3ZKkih!f8XNbK730Ga5}_LHba#7S)BNgxGJk?5&#y0(OLE
zTRq;QF#Jd#ihpUa_xMjd`D+LJW*cs?R$6*O*AdZ{(Xl;dPJyx0GK#eaZ{8*Rk6y*-
z)s;@zfcG<2Casl@O`$UcZu4WrVhm`KUXKUWY=aR#=%A;ED5_#sQTY1eR==gXL&p(f
zw-}SzW*Xsc06TruZ0zpI(34w7Ms2LbPqkt)>nPp|GUL9!t`2q7+nflTGT0dycZC8(
zbQG!NK-W+9UIu2u%w&C)W$n|)CF~K5$q9S?P17X(9|lviY??p$^cd6|8-<g_{fX?Z
zag9f7LMJs33=Xm^v^B4`cDtHFJFEzozP3#du_blEvBv)lZdZe$gDX_(Cqvfnu-2Qq
zg3%<d5SuZX%-?Qg4%8!Y4+kz;JIeyhN5-G<L|=&gPRDNdlm?+|!|cc$n4OQv8g|Sr
z-jDq*%ihx75*)ULEyK9eV2>pxXFrxg_af)xAGqhHXA65ayxTJKbsx^%;Nhn69P;)s
z8b|U#-1@c$2Iu%*5(ej@_BA2+kGpQT#~BIjcr}8&Zv@FX8^M2^k$Zh3oFMHx&SKns
z-4$%f(80EZR}Q)*c!`PG5`DQyb$Cl&?~F{_5>yPfWawa9av&q&EqQ}A!n=TOONwv{
z5Lwe&156&Mwd}K$xQmFJl-!W{<}M=s;u`BdYl64Oorz-HBj<!(W21i@t7f;svmaZE
zH|}Ym%-&qD{_4lz3;YbJoWVC*gDsd97#PHKg}`9T$N>$a596?cO@tWzi6+w@6J@w@
znVtQhDr|b1h&NdgoShJez!Zf*MAPmAitx9Z^Cq~}tM;GUU>abS@@X>OZDnk1<1Gc_
ze-D2BWPSOvjicjxF`>dn55p5s^>)a6eByz=xe+f8hzG{J3Egq#4$FIe%1m%n<)t+q
zP~usnee4Q`@qLal-$<a{`X$pCckoqOj`aOL>A;q`ZFwpn<=AZCvh40l&1hO%^nRaL
zpQV_?u1W;F=81$r>j!*JPJ^Gz?hkPe<nVaTc)<BVpR;4r+&Dvf9<DM>`G8Lux-XH}
zo)7g>oQ5ax0tLJk=CVNRhb(bp#~i!VvAnR=3r`&l4w{+Iu5fp?PKFK)J!lPW>6l|r
zE49-eaGaURCU}<&ZoUP~pRvpXjluaiueMn-fapJjkLWFc#vxAb_79AQENNHc9Nj{y
zYj~&L7bKs~hG-4<;m`W*-H$WCT>9IJ#_@4)&t9FDil)%l+38p>v<c=NcWxUV_8X=@
z7&YhBFsW$`6Taxw<M4AnFK&^}X&VyLc=f$4etSP+IWvvHRc2mV({N}L`^GpihEv-b
z$9H5$#yNKvjTCy@g$jSvZ~RtHj+ui4S?T&UY3;ii(E5I{f3G@tXM@^%%-U<+7M$Yp
z+Nfo|33Y>*sfRZ&a$1_-T95n0n}TcRyoeXHdVBE>l|AMP(VPQ5Z^?S~<$7~ymE+7E
zCT$X*7L8)>JI!M03)a$ReI{cLmJ*l`pwolV`i*<W!UyUXEoYbBY@Y*X=*E5{9ZGiQ
z6^vgRH2asVt;W7NcG8s3rD3Vo%d@-iU`D|EgwNa5HMf4bP<cnUd%MFs^vgb7-yFN$
zg2u6l!M%7DQRrm$6-(CKm6@BiCAe}L9b#9*?S$Ps>>Wtc<-Tf3Tjxr;xOMl?;E*2a
znNg&IHvF2UY~y_Xxg6W&ZP@vvWBb^RdARlQF?vk&v+)N#ke{^VUA=Q0%Ps3dj8^X=
zks4DN@o45msCA$68=`lPdwwYgGA7E2i*5vmM;VIu{lnKS?Lg}sJ^zA%9Cq5MKE&pe
zz2K7#1kMJRF*UWlgA-%s0_70Ff}@?^cTHi&b_mKL)IT`3BNu9ufBN>qSHUIL-pK=v
zeAOneiVk5k>5OvE;$NI7<ZsizoQ>cVHo3^zz*JYs%gC~6M))`XPNC`O|8{nQvB_kx
zEx0bq%gpo>r~b>|lK(gh8(qH-S=h*9B#+jbZbAR$TX@k~2)tg%Lc4!w;}H8}dQ;(F
z2!3#4lr@t%tiag`1uBEK%6Hzw(rLTI%zg;06a-ezovpp}!K6IeYkKeEXg#=2%R~Yr
z!C@WhUVQ0pUVCNw2-W<}Z?D3@NO!O$K_BiO<fG<!Y|8W<!@o@+h8#3mQD7+WexVM~
z$9L`KVQ2b|!N0cKxw~|+nc~1oFftBV>F3kNbGCwiWkZ*ynR$VgU<eqpvQ3{(J+yO~
zK0?O7a0U*>XPLNfrlTXc1fDE0ozWZb*plb|FZKU{OP|Z|PV4F|gJad3aTxlY;Beni
ze<*x0S=5#tb8%EmgFR5_$X?4QQ3dCvu^~E2{xx*vnJEt}1OtGug+m<n75kH8JTNje
zI1xI*W{wD~g!X=DI}Tx`auzGt_jvoj1RhunPA-{>z|iL4sL9{Z5wjSwgVSKI9OWBn
z-xv%=Cg-*98fne*m@G$KOv%RB$==GuA4BhS&?DyPz)EP(%*Q`7gS+xOuN*Pc4F5UP
z&M|?VU_3b)#a{>TnpuR=^EfK^+aCR^d+~v8&#{4>ke^|z>3dP~uu?j6b3*S;Q4_}n
zCc<MG{0)!E=Xav4oN0ptvB9D2?!CbqQPkG)fvr%NX0!G0*_Y>Cmi_jR{&mp5qpf3%
z%!<HJ5L(gR*6ZKIKg7|K3U3qsv~S1Y*xsN!pWqwlZ4S2@DstQN+W!?ktKXmb&+wZ;
zw8>8N4P|;mTQZ+l_<3)Nh6C&qOTN)yQ&##GTH1q=F&?-a9?kQJS)f(3;Q?}Hl~39j
zmc0PMf$?TM_>y10TFmNv*U<6R_D{Z#KiQ|>5WYh`zjtu&21Ew(YW}6H$v~HmzwuB1
z`6X@kQ+xw`Jt23spf9@{S6lq>LOw@$DXI@&;sqBw{(t?=SnXTc&~r}Ud86legF|_5
z$1;CAc&6e%#|EeEi8a2BfyR)lnm;f&(SmPs<h30qp|Y6*XcEVdSM$GkG0Y&|v5oLX
zC>Qjrtr0tT&EU>kewUw^`NJ7C=01vkC`7+L!KaHh<8}_exq$mCh{^D7N?gBi!L1Hr
ze4H_t+3p+e&pW1qcV0C3cKLdI+&aQUaeZ%d|KJ|HB3?I3*?0Twog4GsEPcI`*($z5
zezLH$-LMx=e-D1<5}&+3!xy3D6S_g0t*#BUvxTUPTi|a8?S-wDm~C1W80V`nGMD<s
zo7;ku&A~%x_O9~<yzj*qymM)`EEc@pJZQUXeG7cUIOgIW_-*DoD+~|1V3>w`YuGoz
zZGJq`&vLx3K+(MNkMEB)4a^s%qpRS3<lKGw3iDN=cZKWoZ{b&%XKwLD_3|EGUTtm%
ziHrR!_HYbCJIMn+Ctom^A1AsX%$sfCYw+-PHoWzX+pvJ|zFWn2uxU%`zWS7JV8ea^
zt;xa-V>qtSZjGzaZtNdGP7lN0!qFAX-LspK;x}P1yRdpEj^>H#J%fC>ho%Zi?qweK
zZT0qT$a7;XGaj|f?i}2K!L}oN+$U>n&bNnKvP9#Ki$_K;!xwjU>Es4&4J+{ppS2yW
zGrhg>)@M$H;EiH71sY)HOgYP6f_h{40*(0yPN4WnpL?JuI0GO2u&|6v1_rmA2cnwM
zusqd-8scf6c4OB}KZ1u4caNGq$f?ql4LpGCDC*J?>m5uy-_nUa_KeTn+&xn=j?j@E
zraAVX6J&KSgxno?@?#L+c2dQL^;w^FAaqX8t09&Sa4r$%T+UAXoKM`oHMndy#5j^$
zwz|E?Z)+T&85ZK5u{hDTj|^om4{82IKpl+J^3q(=i<frJ!uVUCG1E9lM!eK>ujv7%
zJ^$o0wQt?O(+-3;+aAB+d6srp#Sxsu0gHoo=9d56XQ#25heXpL-=1j?3EQaVDe(Qg
z!&2WnY#-clao9PSjo9gbo2h5NyTzCV%sch7PtmaYmu(usjDa1)JBRV^kWmDL$EuYG
z{=)F@_4&8-1>wTHc3@RMrXuXdcV?<F;g$CYag1QB!taPx<6~Ix3C_rvGtx3g54T(&
zk*Xfb?i?PmPcsG9LKY@`3vK7lvDcKgVJ35ySH2i(&B}eb&)q-QX%$QGK{LFnpX0f~
z3C>pwAMRH;+ScG&I<J;r(vLpLH~!B?TkX?s-8%EsI9aG=ICJs!4V-4YzRsPw-~spR
zo6~wv_VNk5h(Q_Ljy*9j76i3@&$4wZ%4m$k3mSvb19+EN4dLI;P<>!%e~-I$E6Qld
zPM)U0xfsH~ouM-WLo<&DHXq7p2xmFnA{d;DA^h7JY6}bnS3p72p^S$3WCNS-z^Bz&
zn-2eWhWY|SGY>v)5z1)DoCsIb;9Rx{|8|DX4-5tO1%fR?nem9LX>2Y=@K0ytdEZD+
zXmZ@aj~a~p;NW#~WwK{4-UXrG2CVMK9k^i=r!#XQGe7mY2ST&r4$f`eY|#K;hDDY7
zK84KBe5Os^GfxhOh>Og}Ke~Ii;5_Y<d6VU{e(SNteh)HNjO)P3#jcL|rrlI$L2h1d
zelD6@kc;IO=1MSoEuLGPOXQa1lDVb1RBjnQ8n`G|mODIGo;$+4Tl`3ErCfC`ojc0Q
z@vZ7|{DQ*{>x_WvSWq1Ys^dYm0#qk}>O@eT1ge$h`-8bvpgP%5onoj~gQ~{M@%^iY
zst{E5plSfs8c?kT)jCkE2i2*dIt^6#gkbJ;P@Q3@&NNhKf$D58*W{>*K-CPY7ErZ<
zY6GY?f~pNv?V#!a6+Qu&>jYJop~@JlZcz1jIlh0$s450kAE^34H2|tjpxO+oEuh*8
zs&hewFZkuQf$BU%b-tmx08|%xxr-dtJWvgSYCEWQfNBU-Sy1f+)h<xwK!uO*<%U5e
zhU(&6Wo~z_DmMbIQ7^|QI*qLP;2HzhIJhRj<$>!`a9swj%fYn|T=-UA?h0^SX}Der
zuB*Ux4Y;oLa@RSoD7an@uIs^d1GsJk*G=Gh1-Nbo*Dc_}=k9W^1lOeDGA|*`-3qGP
zyc}n58(9lL^%_vU7F4eT6`pF!-43cdKy@dm{tHw%o8;~S)!l~b9@AR)g6j2N?mkBq
z1JxTr^(Iig8B}ip)muUJHc-7CRPO-QJ3;j>P`%qwy~j|!7gX=_a-5)NR4oM62SD{f
zP(1*u4}t1IP<<Fw9|6@zLG>|EeH>JuFjSv3RG$LXr@h=mj;aJyp9R&!p!yuB9s$*(
zpn42ckAv#-p!x!+z6h!>8LB4?)t5o_6)(q`0Y=p#P(2B%r$F^}P<;bb-vrgup!yc5
zz74AHfa<%Tdd5(F&rp3IR6p=?&pN6&sD22lAA#z}p!x}@o&(kMp!zAOeg>+agX$Nc
z`lX@zm7)4IsD9(+e&?tbgX;I7`U9x`2&zAU>d&D13#k4Is=tBi@1Xhzs9rEs|3t_7
z7dqB|!1bah1^7^{qf6xGNdyJCs1y=nQbZ_`VnSTz5fU<=kd!DPB?}0p5+jt!LPEKe
z5EychMNCynoKPhRLRyvpJXwmRv%LhiQ(POBWrUcN5=x|u5SPOV2`MKe<p@GbDhQ>r
zoKPl563V5Lpth@+s+4L%l^jDz%dr4Yj>pp3PQvyIu8qnGgqWO2D3Oy0aal=7$SOio
zP9~(}6hf)2CX`7Hp<HSSYP*gpo~)#vskAfzJXwpSv%3^_*KuuB))QiKDxpM9BgEx&
zLPE|UB;`y(O3osb%Grc6X(W_O6G81ZGgT=qgevJEq@@$!Nd`-2I|bX_TpN`hLQHxI
zC2|fSE`5ZA^b?XYKuF0ZLaA&fl*txCxojn<?Q@yZZQjOITFwJ_asigk?lRcDkZYsz
z5<*NaB9zD=Auihq3E4qN$`BzXSwgAoB$UZ6Lb>D!YIm3^wJS`e<zj#*d$4qNOJR3}
zYojtsh{;|;iCjX6%NQXc<AkJ45K`h1O65{QnOsIFm&*yXYrpIz`&f{cD*&Fn6ia8c
z3`Vcw+NfMjh{-jC61kQTmzNO|avdQlFDInrdP1q(Kq!+N3FUGVK{xglOzFnn%v4%#
z0eCWrrL%iD?B2??QMru}lUET+<kf_@yoQjF*AkNQIzmdO2&Hm6p-k=|l*^q2wfkR8
zsolGnO3U2<PwvIi*)50N*K=)D-av@SeS{KuBOxwtA|&L^grvNMkdn6&O66^YGI=|p
zT;4&@Mm8Vcl6SHoE$;$&@*XUm(Ia5=y<8iW_Yq?9enN@dPl(G02nqQhAt?_KQt}}}
zsXRz1lMfTh<s$^$*pD)$8~ZV)((-YDC!fU9*{y)xPjPKjK23<pX9y+o5Fsv~B_!lw
zLQ+0QNXa9FQhAh6CXW%y<#B@A{XA2Z@&!Vbe1(vfuL3-I5=&=$Icz`0wNd#xAtv7-
zl*l&;ae11MkZ%!^@@+y&zC$RL?-I)78A7>ykD#`{&y;TS512~Je*--EA(qbWk+AzC
zu8qo%2{HKzp+ue|#N~NHLVij}%FhTX`8lCfenBXcUlPjYR|K{DYo^rhZ<tEUZvmeC
z9!qDp5_bQ<wNd#aAtrw!l*pe6arp}&A%7(#<!^+P{GCuL{~(mf3xsm{CxLb`v{9q~
zVnJH|4e;beES=FR7(Fb4wNWV`#3Vu}kwQXTiU<iQCM0DZAtmz(r4l8S$pS*T#0YBC
zyueu&vLG!b08iprI-}Jvx|nODk|4xn386%igt#mvBqT*h$}&PqN(rS>MktfR3FT5w
zP@`r5C`Yg$EfoMyj>OU#O~Ys<*G8p^5R+;`iKGc}If{^wqX|hlhLDnD38iuzp-he^
zl*<Z&8Z|E)krP;umJ<P<ti;k8JqkuwacxviCdA|vLW!&<#HEIikXk}g>If;RCzMJ9
zp-k2g%4ID<jhfen%Q_aMWj(-?)39_#kA~6Hxi%_i5MpvBp+wFi#N}*4LK+E4X(FVg
znNTV%gfeL*l*<M}*yu(Uq@@kuNe7nB=rJ(b$+c1GBE%#^D3NYLTzUuz=_MrP970O^
z2&K|bD3bv~xojeYjc#T^TDAZ@ITuT3^jH|(#<fv7j}Vjd2_<p?AubmZ67mv4QZ6E-
zWROrQ+X-c|gHSF*1T|`2Tqju;q-7_-lN^@L=y5PQ%(YPwLQF0ul*n#ET=ozWGD1ko
zC?O?#38iugp-jdI<uXp7QJG*$4^@w;v|I}C<Z>*X-Q!_*AJ<0Z3PMb-B$UWY330iK
zkdUhhNx6oQl4}X2@-jl1Tt_IEmlM?P^-QVV8<<MVjQ~$xfu*y%0(Nia+Nj(@h{-Dn
zB{E5f%dLcj+(t;ss|YE1HK9~qLnxEi63XRugbJA=ESK8}YWohR(sC!jle@5VwoicV
zySX+h_Yh)oFQG(UPl(GK2no55kd!wPQt~E3sl1s`CT}5>%UcN*@;1V9c{@REzk{i?
zyc6KbyRme(PlWCFaBWoHONhz)2qp4<LR{`AB;*5xq<oN&k_QN-@*zT*JV+>)4-+cn
zBZTGhQ9`ABj8G+?Af)A!08c)RrL%t$?0<%9qw)|TCZ8pg$isxVe2$QiM+ixIl#r6g
z2&M8kp-etcD3>n~D&&iV<?<zhZu=8VrRB>2Priz!v%M0wzs9vud6E#5rwAqTbwXUe
zK}g6q2}yaHkdki^O6A*xGWianT)s=FkY@<X<$Hum`97ga{+p1NX91r42uo*w73}|*
zYoqcLLQI|`l*sdhxcromke?Bf@^eB;enBXeUlPjXSA=r;HK9U&Ls%}qCFr*Qj;XZ#
z9^lCzv2?aihV4IbZB+hDh{<0FCGuB7T>eH#$lnP``3E5-FAz%QpM)~`7olAKO{kFn
z5SGh}1hsuwAyR260C-Y}rL%nsY!`8DREh~PnMWv*`GmMc2?<$1NJ@;5l7)m)DIt`}
zB0{;u2^F%Kuv`)ZwY`L?v?KwZq_A|hSHt!)u8m45Atq&n5;>d@mvTZvjvyqZf{>Es
zgi<+@P$rdxa;YLzNHxL#?vkXLOUqFJPmaOT8LolhW4Sge#}Q(3JfTEZ5aMzIAt5Ic
zl5!FuB`XP~vWie9Clku$6heipCOE@2%%!Ck;7L7}&TuUZH*jrK)(~Q{mQW(=2yt0Y
zNXV&#q?|@b$?1erIfGCpXA;WgEJB5xP4GXfB#q3ar3v6k3zp7s9SpZ}ZB#Z8VzQA?
zB5j1Yv=b82K}bp`AthaeQppg?q?=GKJ%kGBB{;+9Fqf7-fF}c3I>Yrayoqb0vY8N*
zErb%;N{Gw3goJD(B;`CpO3o*g$_0cnxsXsUFCkROMFjuzAu`BZTDAi`8N$*TZh+w|
z*G6S0Att*BC6Xh=Wtfl<AtdEuLP~ZMN@WkBOhyRhGD@hBy#)VzKXM6kX&D1}GJ&Nt
zyat9nu8qp2gqU1LD3QwvaoI;m$Q6X7TuDgDO9`cN6`@S7CX~xHgbKNq;5ygKm`lrb
z08g&R(ivV0!#8kkRBj~1<R(Iiyn+yyn+XZIg^-k25>hfrD3x0YWpW##TwX<}kXIAj
zK7I{zX?ZQclPN5n;dL;4JJ&|#4nj=sB$UX15#n+eAt84Yl5!6rCHE3a<@JOzc>|$b
z?juyl8wswd-^5&6-VE^Mtynt4>tXn9TpN|Q6JqiXLW#VS5SMom67p_BQr<&I$$JT<
z@;*YDyq{1m_Y*4Q0|fu;C-On&(((YnlLxVMhEIjz4|8o)K0=7eM+qhJF+yBEPDscn
z2ub-QAtj$8l**?GW%3z9xjaOukk1m9%fkfqnxA7TEsp>^c??Tu`!v{ooNJ@<c|uIS
zKq!$f65{eDLPDM(B<0J5lzfFyDqkg($=3+w@+6@`o+7v->g&v<<r@G`p2pG{J{^X?
z#kEoSHX$b8A(Y5>32}LbkdW^YlJb2*N`62nmH#G`$+LuV`5~b~enfDFf6QE3egg31
zc`TjbGhq0qTpN|25n}RlLW%r>5SL#P67nlTQhrTH$!`dy@>@cg{EkpAzb9149|*30
z{gJt}{0ZR6U$AtB&xGN>a&1)pMu^GZ2_^CmLR?-TB;=ojr2LDJl7ACQ<v)Znd67^q
zhZO-Tq=4YIIKo_73IU!JW9bZ^1;g{WHY)Q8F^LjNWC0;AF+xHX5|UCvNXa5Xsl*9o
zvY1dV2||S|A-Im6WG*dB0iG<w(iuJ*hD*6NDrJP298M^aazb2=AS9%Mkd)<wlpIMY
zl}bXHR1wOhnouEWf-`&+b7?sm;K{LAI>U`Hd>q$C<#<9&RuD?$1VUU+BqZb{LQ+-|
zQnHFrDkl@l<P<`=tR_@Q4Z#_%WiBms08bjQbcUN?cn#M^Wi25l>j)*Xo)DK)2?;rk
zkd)I2DLI2sDrXYP<SatDoK2{ZM#6GwBIu#q%v4%h0G@2X(%Ies+Z(wyDs6<Av=d6C
zgAkWaLPEL-Ny!jW(oHCp9zrlFL3)|5lyeAGvWbwE%>YlfV(Dydgw1ogHY(c)F*%P=
zBIgt0aseSB7ZQSbkM3pl@)EA7l#2*eGDJvA7U0P)ES;S;*vWBiRE7yL5kiSvOo+>F
zLPGWsX0tQG6_qkdsFHC)S|$LVT#BW$(+)eAacxvCC&XkQflnvM6-*`MN<vazO5m+^
zxr(V!+g;6krCdX(lIsa+xdGtGO;|cx9kBHZu8qpggqYkyP+PBLDj}1E*|z6auBepT
z2vzbrLRzK(p4@?@v(X6~cXDl1{)-Tky9jFIZl)4)4`DVN_i{z0yq-`cZziPWEdWp6
zhNZL73mb3e+NivP5R-QjO5|OHxV)Q?koORh@?Jtp-bW~v_Y;D)<9lD^ewJ0q2MIV|
z0&u>>(iuDl20zTTIA0QQz9is$Nx=D%fb%5*=Su?4mjs+I2{R0ShGkXqSwdPK26*xa
zmd;=w3_i-WQF)9Ilg9}q@_9mBzCcLG7YRxE5+Nl|5K86CgutMDg?T-azsgivz6S8*
zDJ-46e%Sju*GA<VgqVDjP$Ewg;_@v*LcUE%%6AAU`7WVUo*@MG*rL3{^*t7+<@*3n
z{u@hYYyifd<=UwHkPwp}5lZC8gt+{KkdWsHNqL@-lAjVv<!6MznEaf1wf76A((+4y
zC%?wh+1sQu_~bXN5R=~$4*l?t{Eqc-y$itgE|!jOGxYz7YjM3x!1XQx*SiE<?-Fpm
zOThIm0oS_(T<;P>`v1jzrTm*vB`*@va#%5KMzC}?x4>p03ShH{5R+m;iOeI!Wj-Mx
zQ9@D{5K<B&l*&Rv$Yu%i+GdNGN=qEzNdik}Z!7FA;o7Jq2{BnpD3KH)F3SiBDJ3MO
zjF6JU38hj_2<-VC;s_Qa(hNYP8B1qu8;n(QEh5bXM4AbRG!qbMCLq#GK%|*~NHYPE
zW<tmq0{C(~%c|rA0;0?SM47R42G4`RRa}cGGXYU%0;0?WM41VQG7}JGCLqd8K$Mvf
z7?d^4SISyKm8>VE<y3$tr(@}Co)4R6a4kPWAZIeAPVp?J5^^>nDUF1g^QWYVrMkzO
znZn5!fRiznj{gGiZ{%9#Z(~aN+nK_pF<};`Yri`pom`)mE`TT9SUTbhLEOW&O5Dqo
z5}(6VLiz{?A@1k;v<v_|*^H$leu+6Qx3EG?wi5C<F3)AXv}^--az2)h?;^u@0V~Ah
zLP8#VFJZm3Tm<lBJC=@b2phhGYojtmh)I@EB0C9j*+oc5j*ygLLP~^CDi;%iUZSU&
z-7Kq;5kgu<0iIlfr8Ag?!7;9l$~Yk=6ND1+2ywZTkdVs=Nx7Vml6{0yxq=WFlq;F9
zl$R2!<Z41%t^s)RGAy0Vov?Ww*GA>#gqU1U&^>$uQwh0|Fxwu+r#s{(uB?)q3ApVH
zz-?zNoq=8c{AszBb(HuvrV{chLQ-B$*sssOhNYGAT0)gf5z=xyz>_<%bo@ET|6i=5
z{C6>hD|P~|*a<WFd8beA<(eva10gN<0X%sVmX3VbCpR+%<;|>_khc(KX%TrVS5(T|
z2vzb<0&Y(OaC;g{$1A3*zLymcCMV?4Ro~BgX}KTZ$p^7?d>8vV<pG~dKEzZ)9wf}B
z^}}4DPURy^rRAdlPd<*N<K69eKfyYAX#Aw%`jm2gCd{?RaXpkL*Jlma!^-tYm}|u6
zI`|Aud6W#gjgJ|w$Cc{~VXjde0bk_WsC<bKlP3rz@?}C?zCuXIR|!e^8X+Z55=!MM
zLg=XbI`eAp8%(9;n*dL~g{5oLy|DLfu8qof2r>CCp+ue`#N~U0gnXZnlphdM^529~
zd6p2e_e18@-jA3{%Z~w`Jcp&TcM0r0&$UtcDIq35Bb3O`332%aAtApcB;{9xl>C}d
zD!(BF_Uy+Z<hLwN%kKc5`~gd6Yz)T!$hA@V6CoylCX~ou2yyu<At8SwB<1gfl>CEG
zDlZTMWAabtb>sfU6mG`@a62ALXK!3Pf*dvv6=G6A$fJ`+SPzj403sJyI=%_NW63<9
zOXf3$u@zyq18D(QsLmKuX;}#HWD%B**K@pa)=@9Dn5l#$2($4n;R@wVGKGK#009py
z9q*-%x0H31w~VQT98Q>xx11}K_XwsiBm-bbhNa`Z+~+;S0aod_sti}Pavc@s+LtHS
z(T?jF!*#539UtbpB2TUrj_U-&b)s^u40BzXC)X;+b+X|)MY(FiTrbU&tJZPV8LoQe
zS`+5F%IA``tfTvM9a9NePnd0=p2`)vPfueiEvExKITK5_Pp?*9Ig1ryayFqv8VPY}
zA|#}lkdzieN?Hk}vVjmBm;QKuBa1P$0f4CuSUN-3xDDuJ9o>K~rV^4NB&C}$^OP(-
zEY*$ZWhyP_06gi((s5twxCdBAxi>MDkj;doY$2p%D`DElqvc!{DgQR6FclGisfbuQ
z{_7n7g{-6eFJUSn7ZH*&NSLYJZ<Os^nU);@PqJ7#;+H$(ovfq8yO_cVl7JB;0V7Dl
zbm14XNQLiaDlK~eo{VDY_^)^Tds#>MFJbCn&ydL&Youiy;E9K&<GaD}UCKJjcNtT&
z^Z5;MIjf{)AHb6<v2=ttI>MK-juKwQ)WHd_W)%!w0T{Ys=?HIfgx9f-626?NgA-oQ
zDu|B(5Ff+R5x&9^zJhg>@MfkCPIwEeq~(<WPj1E15#H<wZ(|)Ld=*m%Cww)lq~$dL
zPhN+mBfP~CPO**>-p<s)3GZMP%ohP*z6h3%aMBUp%{oeW4^s)bmoS^Jc|BKXZ+rt&
z7&rqkaK_T{-s*VY%sR^Z7N!#NR>Ew&Z{rH(eLGWWc?ZCgcVX#xZ&O}*H!H;CJp^(e
z{J|S}FYBe{eE?7H$I|h=%IW-o&m|vZDj^RLX3=TikS`zN`m{U<@Z=*{I?`7=(vPxE
z9s)mRxIV62pA2)|;kZ8KbIGTfnthMUXShxq@gb(t@>zf<pTpAWyVG$#!aBNh9%bqP
zoR4vxaz4&fT0Rf(<cnB3&bu7vmsm$RpJ3_$oL}ZT<@^d$n9vHqgjOsa=iQF;Db`WW
zuQPQ3&TnvCrF@f6CEp^X<=X&HzKf;fy~puB!#c|QJ*E!8`+csflpheP<XJ*mehBd7
z$5=YvdmZmjSVwuEW9k6B&vRX+{FG27KPRN+7XVLwg{9+tz2p5g>nQJUm^uLOZ@I2g
zen+U1KM>OLM}Q}P#?tY=!SViub(Ht7OdWvtZ(LU?e<xJQ3xu@%6X40ev2?umIo|)U
zj`F_9)a<+(964;hl12y^nFBB~$I_9$(UHz$9VMO5)a;}Z<+@5)K&X;9AuWpmo-D!A
z@xICNCRs;$mohawuZm4^eU+3F(ozQSq#R2}`fi`};KOJ0grOW^cq)|V$S}`)=EPHJ
zc&d~q9p-uOoOq5hJVz_fv0<L~&57qY!*jgyoDk-D|D1SEG(0CM&#Exb{d3|u+3=jA
zJT+mS56p?D*6`FRPeYjJgLC3pV|dmo&-yUW19Rdz)$p9AJZFS?J~StuGY!vK%F`I;
zd2miVO@^mgd0N9fpP3WS2E(&adD_D~56y|E!|-$}PbSRs**Woa8=fBJIVa5X@SJ%1
z3{SuEYzp&yZcaR#4bK+kIXBGn$eeh#8J_c$=YlZLqjTc9(D1xOc?QEgkIji^yW!cP
zJlQbM<8$KKX?S)i&v2OM^K;@6!*j9n><ROHVNN_FhG$fHE(!B|aZWsAhG$%PyfDv~
z=EQTU;kitC_Jw(#m=n(xhUZG<xhl-_<vH<OZFsIxo|lDrzA`7C>kQA!mFI>q&sXQf
zbEDz8NqKG#^L%YiJhvF0S1Qk~VV)=F#B-bBd6n|KCd~8HoOoVqcwVPGw}*MYJ|~_#
z49}g)b61$>1)oRmW*rWy4snTgkKwvkx!w@w`lsW%FHf#F8m>1f*IU9||8iV!&6DeG
zhU@Lh_0BNYza7`R^5lBA;d+m9y)Vr5AIJ6nJh|>STpv)b2f|!0I<61p$@QS&`ml0+
zG{l9MXgjix<w^E&L-q+J`&5{$ARzm6o@AdfWDhCX!(p;WK=!#j$sRFek1E;YVY0%2
z?DKh&eZi1@QOTYNlNAMIU(S>4D~9Z=O7>)!tT-ThDo?Vn8?tXG+0$XNc>&qC@+AAV
zA^VP!JrgF22V~#NlkEG3><3ErY?$oufb54pnf!>U*{{Ovh0~8&19NTxm~)Gze*uQq
zOuLTzQ&!5u1O3d9{and@874a-Ap2FGWWP3KzfrQ^g~=)cvft-P_6I}uM<x4nnCz&4
z>@Rte{ne2DP09WdCObMHdm&G<e;TrXDcOI*WXA+#FXl;hSXB3B0RT_=VCnYeu>n~T
zE9J2_iw)U4C5wj1jtj^Z<VhAYWDAvSQJC!bfGnOT*<wSMP_ks0Y(+q}G*7aWAzP+o
zWnr=t0<y#NBr7*$M=06yFxiO#*^zmYRT{D?B}<3NRt988<w<t5Av;FNjti5m3doMn
zlWc_{J3+}#3X`22kgd#<Y?UE9S;<z1$xaE#YVstjHDq;4)(|FJ9gwZblWeUaTc>2F
zhRN0hWT)jxcDf-uL&?qxlWmRop7!9eE;*YNmC{J4l8pr1Jp|zHA(rl7-<~gFCn+kW
zi%=y!gtYVmJn6&I5$?{Hu%8r_GC-)3Erhge1$eRzOGkJ~zJ%wIqEgN$RLKrPT803g
z?8MR$UYalAE>cuVj!-2R6VkF9;K>M<j__I#$|zSyWiKHnmk>0%ImQ&;YC;I^Z^#7m
z<>C?aS?5ccs+7wJRdNL(Ems0Oxe7~X?3O&$+mrUyhUgk4dRdt0fjo)iI#N{1%L!F-
zBOxs}0X(@GOQ-BpGYI7tR!zt&2}zkG@J_DW%2aTR+bX?{rD=H;z?0Wt>4+bmL41gd
zo7Wnm*D2BMVWP+9Ms$ZEx>Jen3KKmsgGlaXRgRwI9;RmAu(q3cFW05z^#D)q!_sZy
zlQRepv59XqL~l}}w}gqFo<SsUWz~edjgXYL6Aqy69bAWJ%>j7U980I}nVF>TVby~U
z7T;^g-lt^uhsmCuL3W5u{eU6*pb~v3O!V9gB6*Nibtin7sRL~0N4O62?*N#8ho#%h
zU(6spgtAW<qE9N(r^7_Qog2|-4ADbM^l+HyPcw+*bF8YH_y|)6*u+P<E-jA%Jo!A9
zZWI4Llkf|ys)S!;iiGkdruI8NpI|8-#|PkXd@LR5PP~dR`~rCS8mk_(dpv2#o>H=J
zgvs{KAUniP_@*IxT8X|LCK{U?(RU2dca`XSVWNq-5q;kf{XmJH4HI2HH=-XJq8};I
zPr^i3%#G+dL-f27{VYsWJ%dPo&Z-Id1tBTFBxslT6;u0liC?ocEx!SH@;fYDmpE}I
z@$XqRA%7qw<&T5|blyL4U0VJO@Z_&pI@0=?q<>>oJo`bwvmb;5kiNimxP1!1?Nclr
z>6tT0|HG;Yd6AHm!|>M51CbVRU0NalPl~W~q-`@vi&-@x^9V_qPdI?mDA%QB0l<@m
zSUS?anWQDGnvg|=q{ImaAYIILX-NP)Nn+_p&!0)UlvULsq?kGY;WDmEODVvU!?ARP
z&(9z{(D5tfq|iADM;NjSB|9=q_R~Dc?D@6Q5LGErI!yGlxe*;@h>j+aH(4^C#kW!L
ziuo?SjQaw-kdng_;m|@jEYM+)p3mhh_L}0{F}b>2Q|_GHMY&6I*Xe*e_v+kzI#AZZ
zZSMZuLpmtUeJ%HF?sqzz)E7bO8yWQ(OnpF7Uy`VAEYu03aun|C%kf;S<f4X)HC&v@
zMF$uCTx9SPEq&>qzJX8Qh^Mco(|5(`yW8|dYWi@bKDDTi73x4!-*Tp}9MkuI>HE0!
z{aE_GDt&*HzRyYDucYrg()SPP%YgLBEq%65A6?als`TkFeI!jEztHC)^qB&k`>#(g
z=xlwRVz2Yzg%jEJ;ShaFN*@l?M-qjz(uLE>b&j`Ayw(ZPI!jrfa?&S{^id#vUPqs;
z(dS_F;T3%hPbUiMY(AZWr_<(inwHL~(g{#HYe_gWNT>4X+#8)NqcdA{8j8*t(Fq<p
z8$)ML=u`(`+)fyu7Y5da5piKCTNr~D29JeNUtzRX7-bbkM}<*MVKh=0MHB|?G{`0l
zjtPTW(#l0U7a1<j;bIdP=W@YYi89DVmWyF7_Hc0t7akY;xZo`#c^MZsaB(viw{r0s
zE^g<dm|MPxi)CE!eM|b{BYgvrz6MBmDWNar(KqAhD{AyzG5XRLeSwO;%tT)-qA&T-
z7jEdwFZ4we`cepeL4&?5LEl=SZxGO@`Sr<qeac;*IM=7Y^+{}<KB^NFbuyt&0Mto)
zIwwr0g~*ZIgfth&a&ZC|tGKA)qJfL`T%5s0BNvSF$v?PYR86B{66FRi;v&gK85hgB
zNOQrch@8a5YAzbMIF$<y#&z&49P|nYtUAaPj_Y(RCLAgXPs4i3)Ki?ElJpd!E?-@=
zj<JMeBjLD4I3^K}Cxl}Gb-F@lDRgw%$)){GU5(qfkKyZ-`UZagrPlaFM{76VVO@OV
z6h33KwWnnYZ=pU08U0pKXJM|6X@0S&vnbcZO89Qkz*J{(?i^-1divX@I_Kps(#)oo
zjZ>ZTbC)pFw+SCo=#1vBL#DW<n%^+$T#$P;bG0TH%iU+z@jE}A3v>6Ib($;5J!IDL
z8$O+ja$hs+G#Af3i(C;tkkdGoxi$iiYkg!E#rnmZ&V;&4t<_H%OVo36bw^LrRA*8>
zC$jv?TIW)Ap{(57*Ry%5Go=nv|J>Z%HPyLHeI@h#J>A$qywn8_6#2q-e8#r3OdTk*
z9j(xMxVlniyST~a>QwpX)@`kwQ=Lbsf92|yMl^hddRk`N@O7!q<?3HqyQ8NSrjJxt
z%X}lhKGj*NUYGfvrbg^4Jf>=-6nFG=H)2Dp)ftnoyS;g;Gp%k}vs`<WI%sCw8qo|#
ztE(p4w$@&(K1RK^S&i*HR{ghG-Hg@8sVnE|Oe3@%uTGt-GmQi25i8Uan0z0$^aOPZ
z%;Pgaty7&Rs()a<qo)m<ev-Nh=JA0bY}-n87|0j)^`PNasp~)%ou|164STY>5f;>%
zf>YF`@DCfQXSF&PW_4p~)XgAU)Z5mM)wSwzxVpIq**f(-$j+~+9%yUrhk$zZL@cWH
ziyG7~p$H-d+M#NV`Y0Bl4hz<*zhc2a`@kl!tW)2G0@%eTusheQ8$-UZtrcy4syZ}g
zI~q~@G<9wKdrft3D_Ze%b#pAJH3es=%R|AunrhQ<XR7~WNv$n8OPwK0>TJo`>KRc|
z)Ul}rjo+wF68XYDe1fdAN!=x~(Z-gRYP?e)ySI%)7rs*>7+~;#n$H^AS36nZQdZ!b
z40KGOM_dzoYOkJyX`r92aE_jrneAx7R`uy=AK7`mebpIu{C+*#YW;TX+yNZ}Fgw5l
zbhC~XnBCG2wk<kVKz2U<-nb2)gYVp`XMYr-;adA~C~VU+JPT?~!FhVNN5Q=MYV{SJ
z=j*ATB@MRZ0v!jiWQ{GkPzMDpY3;4n19~Snn-8Pv;KXb(6=Ze9!kRVMq-Gp#qdNLv
zNv$o}t3wf%)Y+0tbX>xcdRsE4gOnSmyvbBgKRn9+H7{LM6LQi;wVE+Lx~L}PqKj%n
z9=fO|<e-ac|JOhBt+?2`hxX5z|F8IGbb)E^8NGn{{~7N*uV$umo>yy2oNq3wneLj4
zYX3()b5YH7$6QpadFPjlYi79R;#yPSymE1!Dah9;&!a=$h&J4y{utefPB`SHx6=Ra
z!h+st9@hPj`RC%^zJt2wqW<>2-l@(_dff)&2Y1)-_A|V7QO$H`T~w=i=d0)A^kkg%
zOZ38w+rGKI-xOV>muV;}Ztcy_H5b)2(N&9HL-LO`Gdy*1ttoJhy1331I6qxnZwh=j
zJz3mf3dZ%ilBC!H97kTQ*V!m2tmT;cHoaJ+UtiYGk9Ga8WB>oh!25q4yEy|MeAxZJ
zj$K>nV2-^QUY%!wb{%xXuT1y!|L+Ik|F@ldas7<(cyWU%aKrK9HKxFg#{Z|!3$=P)
z*rfqRy71OsEy!u?5d||(97XlI{$h<o+FhZipxqjjBt>sOf+16#do)1Fg8vienxdLa
z>p4@M6B>l0&RWfzHykiur};}YG-p(0cv*Rs27*~I^JKNKp|Q88x&Pe0US0!VqhVsy
zn}=*aFO;v<m@)s^+S}FGGu3&WM%hqM)Ppg}ROibzWXcM?efp2<HGFCcw2f}iP%8hi
z1;dA_&KotViu{7sUW^rc8#lquO&Ygjr8*ryzCuHI$YT(Jh!ZYQZ`ODoN}?@2eHk;P
zx<$i#C@bvPgzLsh4b?JR!&C6B8nk70+8LP_!5GB6N&~rATZDa!+OO6qA@apF&0Y9b
zWak|k<YhsvDY#PuzT|6Z$0g@o8v5mWhQSaDx?97*egX8{qak4}Kx_;(?$z+HUw|5~
z*HAGEig4kJ)_j9TjadQL(cJ3$G=j_mxC0ivQKQK$z=byp-lUOb6wDu}sqJmV$1^)$
z&=50<N^H@|1C0#S{ZpgPC|~5tn_9a&raJ$nk?3iE&@tt|H8?%3d?N!-|Iv8$wDNZL
zpBFWRJ*}Ka1tu?RSbO@4O)XQIf&vY7V?`hdUrBGD%0vn@{yl9?cO&9dnZg1Miccd$
zADPM&6=<M*+KPTeX)?tH8a$u2VjIFSnRx{oQ0EHhMBr#sf5#SDj~8gD9xIC4TKhmz
zQNTFBEP;0&gST(&X4ENjRDp(z@wfRX$~125p2{3upwVNLMNu};*VxrHl{uzBqsb_o
zheAfYGRGEZY}x)7(IYg^aRnM`w*T$VoQsZ{Ile$c&-TB)I7%}s3N#SS|01ua-pmOF
z8kc5Srm=58>z!DjVQQ2Wx3u?A-O2)uS)*hD96^6`Uu!Gut}4(Vw(>RhZs=>=IF&iM
zKx5jh+1J|D+SSt9hdp~rfd;uz8a-!IV~eS}x<G^8{QE%TKude$z*J^UfyTf&AdWUS
z<L~ynijxI3egL|l){j0H)J@sgb3wfyc`j)1!_Eb3{FrmWT0h`iu+EP*7p(Uq&5@eb
zQ=KM+5y3Z?ZHzgB@1u8`0CS`Uc1(0RQUgOKw9F5+cP`HT4)P;4Fy*4jks6qDvE)b%
zOa`Ik8klvV<VY<nyFhZJ7RFr|IZ_MzE{Ghdg#;Hvj?_Yh3n52pA;d+HBltLc5I>I8
zLW>I@M{1$PMUNx3(BfjpkveE`k>f}mw79r&qz+nK&^S^DEiPspse=|5GLF<ii;EaX
z>Y&BNiz9W=;=;v|I%sjh;z%8|xL9$d9$H+aI8qNSE>0Y&hZYwlj?_boixEfap~Xdr
zBlXbY0>qJeXmQcuNIkT;;6tPyT3lo}QV%UIFwD=D24Uey1GKoPFh61+1cW0E(Bk3^
zkp^gSf#663w74j6qybu72sqLJEiM2YX@C|N|BW<2iwplo)<BDk{YKV6iwiJB)<BC3
z`bO43iwiA8)<BDkD@4{niwpHe)<BDk^z!q-2a54V)<T(!;6~O$wF}@z)<T(!-$vF!
zi;Laz`^G`&HnIj=<RZ6`wW#R=w~@8b;$pUub=W=^u#K$47P$yOWG!?KX~31o-&$C3
zk=DpsSa4C+$T}!<7w(aDsOhfSBkRE8F4-gNVBNnwN1Sz2|Ax%LFUNCBZo*j}_rug7
z<xXS{rzLetx%JHXx5RR7%;Bb(I;Y$g=5!#4n_{`0nzMJsa+fiO`(o;-a<5<xAy;))
zxjUFc%vJqW?rplRvt3<Q?!&r{Ie4wyW4ewvWZ<}RPwP77;Jb3qGl!w`jQe6ZbLIY`
zlT5R$(A|pa#;NJIBK1%BuC8@$`VB{xh3=K<w-s5|ONqwK>30vctPjm(oSlA;Q27`T
zH!e@V709yw;O?1z$B$*9TWI>3J(lU9(Ktc<1Rl#mH`Da<bS!J#=5DCz*W*~GqZZ>9
z^~-K73*B1NFRrnygJWCcBK2!%EW<rE-%;w9%2<Z`Y`(kH4~d!oVzg+Srhey(WudEn
z{R|h&x_JZ8I8gmc7Ry36-t;3@EW_P5-<j$+rc6C|2Tnf$W$K|#jbqg>G_fpnD^9<j
zWXiBFjg!?c8);c^OHRKy#4_BM^Bt~!35aDK!L2#{IuFZmf6jNl`qdnkh3?Vmmuy&u
zK(OzK^$RmBLonEP$NJ?LmW6KD=@(g87P@DrA4_3bZyVah+_%&3n6NB#^G-i8!ZO5&
zeP^v-|6m!S#J<bc4|AA$IE0Mj)^BE*dMGpQTR&&PGTh1Yow$B!f@QsJ?p~gL1cGIu
z8+!VE29|~H>gjhAScU+y@7(p11}sAm*>~~!wE?ZyfqrEiy?zKl>#@wZdwoYg%j#HW
zoW8z3pJlks=evG=vpvf~xBB#@^DJxaN52Yg^=S~91KTc!l=m>C%vz1SXSmVa2;}SA
zS=NFvVCQW20QvVT`S(dK?(sQ7w*~d}-{c708`L*+vn+IjP+y|WvQP|KUv#bi4ek@_
z`>0tKx>>02cxGAXj-kGTS^ryiu7CQ`_aw6nk!b%Uq^~n(8KTktsYu^A%(B*P@Brr4
zp}rZIWr$Zyb(&~}zRj0q2w6;Znt+AAh?iwu9cafHHxSueIo?jZ5esc?4K0|HoW4+&
z|3rXds&kli`36^=4V7h%?`hR{p6WllSjz-0^bM>0Cn6P7ohDGBFC1kVLJ|InQ(vB`
z7FcFZpZbDJmLd4<pG5T~l*-34b1Kz$MH;?y{2+wBi_!3*%mgCzJ&J}8WhNM*??7Z(
zZ$B=3O*}&1p=Zi4STHAOeeazq!?3`_BlJ~urVRVXL?rYTb1Vx5CG@p$EbD23W)qmu
zH@cbs!V{U;M7QR-Z%k-H^N3COp$W}5_rUv@sD$PbmYC`^Q3=f>DB;H>G~d#L>u3{?
z(0nK$q3`da&DL&kn5cxldy8eEScJakie(5u_~8fTLi}N>(?lPPtswkhZ1JpYq7OFj
zf)6Io_As#rn|GlH%?|{j2hI0$G+-hRns4bw-UJ>r-_(V?i94A3ZLL$8!wdBCSPM4v
z;fn855i|Gkm6(ylt!f8L=81^Tiqu*gyLzTFPe;tOC_aP0TFu?fQ<-NXI!#Jzb+>Gt
z$~+g**-~0Cz=A(Tgp;PUpsBHQD)aY<PN33)9(e!E&O)6er3G8JVy;kip_y34`OCDl
zbt@tOCl;ECR-Aim3Sqv!&`iAI++kCQYvMBt%|tBD{WXQy=(a*LF^h9|P2q;AOkbgy
zsKvRrrVy9U=NIb4Ey(dE;~ar@dwaHL$J}LbWHkoGn242IjK4%y<AA_KtlSBj!I6NO
zSh;nYsn-kQ+(yk{n2V`cxy_ovD3_y7x`xPV4B{~rD|e}8FuuoBtlUkS!5|tlv2wRF
zW3P~NZ`BMGU>;WPLCrt`$D5C81`0Ub{HA80fTPXlG}AE4VDrzy2b)w!Z~?8KC)d9~
znz@SBuZC+81e!}}{g}5FL8cvOo{pR9EDA2F_4C(S1j%-ox!tb?;pXyMKN_vIAm3bL
z>nEMH2peI?nEcwZ7NIfC)wX^JS&Pu5X3Ca+rdW%h-VQMN1z|0MdUNruANJKEsJFvQ
zesh;a!DYC94p)ny-dv08$7;0*>h0KaDP~q`5!9Qja{bV&7D2roS=RWqpx#`c>qk<x
z7Sx-Ibp3>>7D2taQr8cRY7x}iQ6)eBsYOt4uG#g=oGjv{x*b#UqnTO+spjfkzh$XK
zkZLaB^%Ij?1gYjaUcdUNMUZMP=JjKYS_G-)ieA5us6~)!F6;HPg<1ru=GtDrCa6V_
zYA*2gBY!O7b-lUD*U#^15!Bm}<a&HYNsFM~T<_~A>$C{!%`7nen4A_ty}9z&&%9|7
z)Z0<yKA#Kf?I4n$M$=kQZvp}O(K0Q9dJ_%M&xvUf)SHlie&~xuj0BjtfbjcUS_Jhb
zIG|s~(jurg5d!^Yl@>w09X;}EQd$J{cJLT8!#E8Q*s<dgei780sDXYPN&g7-CUl@*
zEn*Sl0Kvd9n1aAjNhe2s7jUr~3q9_eAn-t=#Vc5oU%8RH{pyT4m<WV^GDZzTmI*`X
zM_p7Fn#;r@^s_50;$^=HNa&YQ^p7xYCY0&-OZ1OudJ~$^Pl9MIG^&YD=odS*2z%B9
zDfFWnEMmOFL@M;t7g~gNHsK2WI0cIuA;Jz3&%yvri@;?^i0yt6HpmVT&#^@eZ_F}2
z<mU{8ul(1hTnmGCc*xHVki7~2n`Ly!m-*|9@y#xP1Uoq7Tlo3EW^9ff8}gm>EMn}(
z#8mY4>RN<mwj)En0i8vRwV3FNzNB1>(13Pa$XAK8s0m!=-ju$nTZ_PDM}><qU7SVD
z;If0lGF!Cn|7q`Bqbw_`JFfRK!;HhsFfWwh)shj=FwpPriO<{Jce?NNee~S!o|(oM
z5YXW|4h%4eNQ@GKNLn+&D*_VHEaOsMgGe4OmyY;;0w&RwxU!;gsnNt`qRW^sG0E@0
z>r|bp(=(V4lE+%~m;Tp(@2XQ(_ncF^>QwDb#>^%h^%S+wOv15@8lxjJi?HssxNkCp
za6Y5P(Q+TDI<NFv^n7LxzS@@s<vtg6-t8&M%8WDlN42WbM)#e_T#<^Z^yZe0&afJ{
zEw^KIq*5GfW5MFk!71YyEWN>@Gf&11=k|t<EEzYFn;SZDWZY<OZRo&|aa`9M8#?bJ
z+hX<n?4E*YQSOax3sT$#-nbw|e|hVI6n7Roz0JHJ#gE|a3sUr%H!w)iUEabV#V_bh
z3{w2+-o_~R#zqDy`qWz)q^OHGGe}VvZ)cFAF5b`}MO|2x-}^IKPKvr@Ygo(O01HQr
zQo{m{dZm^H9JNbLi*oN$+X9Z7rp5&v^-Zk{IBK1m7jV=)wJ+dkL26*Y(T>!@fTJC$
zi2+ADQX2z~cBDo|xp%3R0Y^JhGXsuxq;>`z?MMv`INFg~8gR5DH8tR9M`~-p(T>#E
zfTJC$wE;&vQgfr+n|~;<Al>$x=bsC_!GRv_NG%RH+L4+ZaI_<}IpAnVYIMNSj@0Ua
zqaCT)0Y^Jhy917Pq=rYiH~+|BA$hGG`KJbNdZ0%;QriQLcBIA!9PLQ04>;P9njdhq
zBeg%^Xh&**z|oG>0)e9)sR>f<%|B3h8w8H~Dm6mjXh&*=z|oG>41uE^sT~4GJ5oag
zj&`J$2psiudn3*AP@necJ>quCSgbzlXMJ=?jf!%wJ})Fz#XAR@PqRN>D#LU}YG0Il
z^>rdOFerqErxpfz>D<)BK#!3wwK3pmcxq&D4a!Tc3^*E;ni=Ijy_{1!gYu}K`(9#E
zkX*ybn_3KX5P98(myXN?*J*S{Y9UY_?MUqbIQk_u2;le;Qj35()85o1faAL9I8I%t
zb2^Zt$B&hc<mEoSSks{#J?fl}<@C$aF&UCUG+S*j4-D2~2Bxs$kd4$-r!Oopn419C
zH<XzzGT6a-mmSS)p`oM0@gjS-4J;YyAsPM)Lp>zpzh7I(#(GE$0Kc}74fc>!-mfiW
zqdg=hKswy(>a-|ZTj=O`u55s{^ZPHp{NVme#xK9*(y+k5xX0>~UtwVMAeCDI1Eg{*
zV31U91q_kOt$<-txfL)%Dz^egN#$0+Hd4U~=<6lL$9P+6pwCGKE1*wx306R#>JqGg
zKGh{y0ez}Vumbv2mx2}0ry3QkfIii$U<LH4b_FY-Uv<pBWVJJ^qF*&FSONX2Z@~)a
zSFH<HK)>o<umbwkf`S#$uXYryfPS^3U<LH69R(|(U+pMZ0Rw7>`{eJ}8p;D|N5Kjh
zP&*1%z<}COumT3uj)E01pmr3jfC06mU<C}Q9R(|3K<y}40Rw7B!3r4c<x5Ap>QEl+
zgG-kk%7guI1uI~10IpyK3=YB-tboBGxPlchI1E>?0tQFm3Rb}2C|tn`7~BR|umXnE
zj(&IMHCulu52+pL0z`R8?I>6QLuyCC3K&v53Rb|7+EK6qhSZLN6)>cB6s&+DwWDAK
z45=LjD_~gdNLM1t!)iyt3K&*93Rb|d+EK6qhSiRO6)>!J6s&+@wWDAK3~ysiyI=*3
z48s*h{E;EJWW?uN%_v-9pdTH8D-84_eQ<?=es~0~Fwl?m!W9PkkwLh^KtHPT3IqLU
zKU`s;A5mQjgZhZ{3WNHH>QWf2N7S~$U_GL~Dh$@6s&iqm9#x$SgY~HTuP`u=s-KfV
z_~7FDvCA&rcj+aUU0s-bX4|`LSv%X{WvklR7B5@W&Ng}3q%+&*WlP%GMlV~@&bE5l
zf_Apq%ht2A?OwmS<?JxLM4P{!TDvZeC(%B#|NCp#n5F3`674+mQ^{!iS-y6S{h1CS
z(MGg<?HY?T9YCTjY5Cgql1XH=IW4SRFP%b0+tmCFGTN)=Cy>#GwS4WG+NT3Yv~{f$
z)~>02I&4In*z&dOB~!;}J6l-0UOI7%Hn#bBW3;<1U%Os1YmD}}b;8;;Q;Br6u;uJ@
zu!y$3<!jdzpAHoztvIIhMcZAL4j#5RnvNYM&Hd7$!#1#`BZuu<O9u{HKu^bwlICvd
zuwk3;(oy56YtT%V(lNt!*rh{;ZKX>`3|q%d2MpVcmyQ><doCR=N~7EW>1bg~@9AJs
zViFua`})OECe_6`leP*L7Do>*KC4-svoYj}x8|`cFl@{d_S^D={iZx&za>xDZ^$#8
zJE;hp@x=SBc*1@op7Gf>Jma%Xc*bX2@Qlwk;0Z6?ekV5Cb7xBWz#euI$2;vLjW*d?
zvW;aNHWQbt`PMo~XLaf%Y$uL4)JYocrBgE6MyDh`Dg3-c$!PPOlF`07C2>jNCmKpd
zyXBOOHp)3=EH*c@P%_#cr=<C+aPtWzqfK#2M*HEMG;D=)(y$9o$!G(dOVY9KUGI`@
zKUq*R+VQ3&XGr|}UCC&lo08EMHzlLpZAwNP+mwv<v?&>FXH$|5`QH9lGTOwZWVC-x
z$!P1ElZIVuP8v3>DLI$#RZ}wBrlw@HLruvY+K?Fb9LM|8B#pMDDao;BZ^N5ZNoT$*
z$&qINE><$yex_u!^Gy5wPno##;1w6``=5BY=ebv$2b#jeP0OA886Ix1I~7pIv4Jf^
zSPO+&gb>E9fh|E8|0{jCQ<pPkT+Te<v&~cV)U(Zg1N{*AnMt4R*vrh4XFK1>s=QC;
zv(4TtH@DY?mOR_Mo!yMy?j?D;aW<KfeRJH3ZXWNXB%Lj$<dgYqb6>gnxm`EkWU6Ge
zzf{R5ezrH;Q@#80D_?Wf|Nn72JN5IVj@H~QPd(AcdZM2it-}GK|E19y+eKT%-R5sS
z{u4U25ze5Oqix-iMmxIgU6FWuVszt$=4M8woNwWF$(jGQD-nuf$;nNOlsDSFt>j?7
zaa&3JgZT9`C8G`2mN(xGtt2i${DPU1(H>|easS~bK1$Ba?(r*RF3J1cEsiM}?L}6S
z1JZt(OvxSjE?t)ln{+Li@6mP1utitNXos$nv)X(djs|16lMDxg`He{WW5EX(Pab>y
zbr<cw`m+6(9`y}fYQ)28sS!VerTV;IShq?g26L%`C7vJ3lO^MpL8SVG=5k4Aq20Q<
zbeCAm+!s$UqK4BR%KKzm%lx)ahP7Pu$yRD}oA`rze7vjffAzl0uG-tY=(YLByLI?!
ztl}Q5=lmYrjd4_&x;d|nC(3K%yaae1a{}kVaf8lL&(+3FhW{}qa~>VnF;gDn{4Tlh
zL*^vTzvCwPcdWKs%~oRp>5!K?hmV_?Nl(pJ5M%(Ch&`?CJ<WLx3O)+*i!8@pm{j$g
z8J;+TJi{D8&R6Rc(AP6vYfetI8m>)BkjdHTXPApfr`I3rxdeL7em~t6q7nvTHJ3om
zd6hgp%ZA!utmYD^Ijf)2aA4NLb7H;fDm7E#w03Q#)nMa34dk074WzV04M%;c8XqfB
zdzM^SSUYntJJFWcKX<nHRMrHljap?2C4AO7ZF62{O5xP8xr35x$z!b-oX&bd-MW!k
zXuURG;m4)SjO9slUpcAM3VFD!wzb<otS3B^^#s~mtIW<>t9Q1hTJ<U$=(CTWWE+>`
zOa09FcW5>E#m@(MhM$cz7v)xS{pPW9c+3@p)w7&Ke>B^FEmgf(rm(K?UrXW6X04*y
z<oI~4)zlS|Bqirr!U^f)<zurZcZ9*s=5p3FjB#I5DR&vm8dW+aoR<D&zBZ4SuT86O
zI5xe+-R3eDIMkwWczPL29CDf(7CBb1$WfV|){(n#ih8B|Zc;zx42P+gPgN!-D@^jk
zfojyorz&kzb01A<250)~m2s^rgu~TPb8}PG-O(fo-<<iuKXUytU!14N7bl%<|LA0j
z>ycZ4IeyvbUB8^QkxCOLyzf_=mrhQ2Ow~*f&SS4OZ=JcoeL<xvE4f+uaZNi61$YF(
z8K)z|LG4xYXHc7&ada3Mp21YBHJd4iliO=Ef1Z^(53&^=W?ySFzn-}$%*0lje@~8$
zEJX9MmFDBqkzrQ0#Lwpn)vn4@;lHZt$6?{6UENIw1#@mSi!b(k?Wl~)#bp>+a6pPf
zIX&Ou{5K9rGb$Vc|J8W^9F==D^}0R7Q9{oXURm|a;|-=#UznM#+5<m#UglBMk57xI
zP2wVA+MI?~+hmYmI>0$bKi99b(+TG}MI6pB3h5c1YkB27SCEo3*qpuNt;SfbS)J%{
z{doQ{F6q_CJ7xaxxN25C_t;at420?hOZI5hTaqiT-VXD7$|a6by(O8W>P?%wRPwIJ
ze(tF>C+x{$G?>(V<32hdJsxwq(rof}avvR_G@RD-Hg?|}V9v%AUZBVM&3Fhav)BT(
za|ub7V0qW^yTi*uzgBqJXNCdCB^iTN7@lByq=!~c?x<2Fz3uI8uu}XNajLR5E0<xV
z-kO}pj0v6r*KjtoHb+_duR+g!`XJNhtn~OY*}&qzhM;w0-XQr9<mDH-&5u2LIn7OR
zH})*F<{6F{E|QM$`SQ`~=sA{_$9uIt(UuFLFyq+a??DaWTqa9~G2VuDc-+y3k=%g+
z&j2z5AoxBQ*2CD$cyjyUALzA#II#7_dtbKh;}8AxqV$2yE^hxKiIw51W1`uqYNbAB
z17q-td#dw_n_e0&t8;M9b*l4~i=Gz(;WEA8vul0&e$jQi)4{FdYTP=yyUGcIbH{Tq
zK6oAKe)B^-<yU8F8iZmtn&GWuhBt5bcVCZ#eyapM^pc|#xSK~R(>!|NJOV+3BO2!W
zm$EQS!=<9`)zf1&@LMcV-I8B6WQkhg^@Gc?GegmKY2B*D5;*f=CxIz_#Xz`X@NW6i
z!Mt*bNgDSW%{5uonYERknweg$c?50V<<ix)cemOTvr71i2H$7rgqNb;=+STFvwNyL
z9lWEhWjvXmXl-TIzz8o7(ZNsJO1aalj8$b|?6)8eG;fvjshrX7gQaNaSUIEJM@!Mp
zyK+Xm50|2yi{*@VA1_5Sr^zoF+<0!~lGUA+v4x7>BD(%`g*TTHjjEvQ4cui_8a3Vw
z!3W!OsZ^d(H9T6zMoTW&4_e>^D)CIJoM%$~T_%4r29?t?1AeU4nx;O%ptm%3-?bL?
z14VEDo1nj_i011pGzgk!#6=D)(M0t+3m{S~bg-zpt2_M$i!xHI=TJct#p^8+35vLw
zvw6xGI(59Iw<j^0>wcc1Zk}tW4DYCFyU8nZS2b6gY*%VNmp?T`=_{@Do<41^cVDF;
zXK-v+tBm{1eM9|Q`-W7<?J81FaC-q0yxx=QVFqPZOHt(aEmQWXkxte!9+xnZg;k+v
zWsflri#^np)<kW*YNl!MrMF7H^r#jG*W)Flb@?C|$_?)I*5|_fi3`5=)`kbzjnV#W
zI~CuazgJWt-0gYuTo1I|@lliLRdoy{e>$ELR}aLc_+#=2Hsp0=S%HqO>DdpS{MN~n
zpIL|Yin6!>!KL2{PS9gn>%9>C`klu_JbTZ3#8kD`nyHN!ELRiz^IX&fn>wSsW8TFr
z9KCP1_{}g<s*|%etQ)W?&|IY=&Y%CHh=IJ{cqulS&*>+NIx1p4jNA$`$6$i2Ijuk2
zPnpay0vX&39*=uL%r)+W;9_t^w%)=J8oUg8E?!2Y)3o~1gI@48=(%`7@pxyR(Y)Ys
z@R^zM+4Jb_G|MMsdWMC@O__~r8X1;CSbE&L)Vy`Y9fem$zeu^bX|gptgK3<NK4JcJ
zk40^vqt-?W_)sG6y%x&_(VASube9?2eHP#a$+|=`&Mc%meZK{MLAWs&>JFdVU9In;
z%O9|qFvw5L<!%Dnojz=#Vp7@M6mwzv@j;6qgDk2kKZZmfwzx8gqE>Q)kdx&U&DS5Y
zm@_CmC%lsEfykzefvoq~EV4WO5sOblhLeh>I!jYnO5N#)EqDzY>sZ#Av!xUjS((rt
zfKOPoAcPz1we4n9i8lkA31WBphy@Zteh$-%`NoV*7|Crbh4#2aMP|!~pR~9`Dl@rY
zcyB#oA&HQmn8?k^)Tb;`5wd5?Q{h5eGZIabDzoF&=B#F`T->i3ecB=#p?q%W7m2gA
zA8O}mZ(e3=LZ7i9NaWk(RqbbI4pwD(hdbl579a_QmDPE?B~}}HSAEU`CPAL%Oc=YA
z7jv=9u!(Yf-l8j!<3vncoA|2V8*O#`7cA%!vdGG1a>LSF@m=EC?(`QeMiY59dd|j?
z>YnN(>jvHFFIo5|<f}~H8k?`H;$OCaPS7jq(#i~rf{<Ua08fzXc<V6c&_qm+`nZ{7
zU$wwb2-o7Bu|n_j3p5y!@GSJGg@ZzL@)VVAwHMS4>b|y?rkLpIE&Z5<i$ZBrozd0I
zC8_X^Wl={Tz8|+xQYdWD1LcN8UY`ulEq$^0ngy9cypn9KiI&Av`3nm=1^H{?wh1M>
zN0t!_yP?t^pW+h1^XdAauBzhwR4XjO|LLYgDj%rMs0)5j)0>o6U3WV8LQQ3<Kh(5f
ze4_FmuW;qy7<EH(WoHk^{!!C<>ji=<liW*c`ZO0krKVSxx70a?+}LAkdU?F2()QSK
zYAVNhYL$0p<UciixbdON&4xnmNA)Cc;xjYg-89v+yVCASJ*uwf$KZ}=Pw1DCcU9hz
z-g^u`^eIcl+@nptadDG1PJX%tK11*Hqv%m#mI~*Hd4uZar(1Y5R5u?*HG4Sa+0_E5
zp>{H^STQzvCNf(sUyY1ByKXLO$<1rFXc;+sT~e5NezhgZ$ouO_#lo_c)yNy{=|vSi
zJb37mn^#$pk(1aZRWpyV6*D#?x3L@J5_!`tj8};25IK=O#go1x+yLlSU?az}8|`(S
ztsnV3oO=siW>=b**{Yu8$kXgv-q5zBe0I+gf3q9pK~_eRJ>@eMu1VhWg74Xr@I71G
zIiJ5?mO7%{<crY#C8xCQid7)@O8e{jtYA|+2hN`Dk&{}&Kvnqu!&^N{MV@OH*Jz4m
z6?21LV^7I~I&$wUCteO8th$YhOBT`*YMJ|{)!0|E*p4tKIHj$b;6TaZJtBBU{za+V
zxTa*$AEE6V($?rZkp(-_=OF^0SzJhz*810=f6q2<DOs>aWGfYWYpYiCyN!oR7MBlp
zqdq1w)#}+!Yv*{lwBQmp?xH}PrRw&|IR1?uDOos6xDzYm)6LfIdKLT9exGjRb0rIN
ziSPtw5N$p~j>}RA$1V}9o2!huWt(v>rJuFic)VocFp;jn1C;uFAsottT!kic65hG0
zK;{Vwe#4y1d?sXx{97f9rKf!OTjaK=H7Bb0hsqpA!JmNN^6^~o!;*#EL%_!o;&wEC
zT(Y2h5NjBB=nOh0D<nJriD-lGvN5_L^jLNj6#1t4Cid%iZF`MXYd#rh0ShD5JE213
z4B5AJzH)MNSvS#a?leu)m<?mHHLfUIKtFU(b@W7ad##x*p68jmjVsF*^bf_8rkK7~
z_0r<Dja9BLTS!1u*3I(EG$(b7SNJh1vvlgUWs4PPQd+D}caikEvIP-DnzX9Ahc{SH
z>`Cib8o67oV`=0*wvMHdJKQ>!M(%y<SQ@!2u48HBe!0+C-<n|sd90=zRz^-ugUI*F
z7EBTGaT>Y1jqjH&up-3q^G!Vw-0%NTwm6Fx#OtDc`{HdDSNZd|oztJ8=&zj~{oB&H
zX|?@3Q>lT@7X2IRoTYy|JByO-?3|<2g`Kx6bz$duN*(ANQtCiw=X(2huE-lYw~D->
zbDmO%I^S{sx*`vC=B0V4(<}1s&Uf9v+a$ZYvs<#eJN+ULcfRlb-7eYT&VpozJA)#R
zbbjFe-6`3T&Pydb(is-{Smz(zzq=%RtTU?Aw>m#^|K20=Tb&n@av^MAEVO~MwVe+j
za;PHiY;og4BSQB`YN#sCV%FX#&d{W|mrL&fafWK*6q>Q~pg2Q6T<6ghRM~Mq4`^CB
zu2+tR(4tUF=q{n1LiY;&xym#26P0IZR??42IxqCN&~Bk`3w=U44E>vO7+R22@xeNu
zl+@5m#VLkk=TqVgy<FTHcF1);BhJt(#hoT@!zzz15_hh+FG$bOZ;E@qxJ!k02z^CT
zL$4OMAnr1uy+V&mYUnlMt`+xMA&cw!SCSe!w85jxCA~v>-;mVMTJ@=++XA{(IgC4?
z9QP>4Un_^9uB3*plJw(}ep6CI8&ry+gOWZf>EB9f=yv5b^g2oZUeY_o8G60ApNiY6
zzB2S}<u&vMNz3@h>YOjBq3=j)=(i-@DCv7uo}u3sw?*8Wg$9Lwpd5ytt(qG8U_iek
zy$R|4uF#y&HeJookCfNYead0zEz-M0de4`hp&v`n&;!yl^j7IzExi{?&(Oa}&(MR?
zGxU4XyHR>CmY$)XO3%<k(lhin>2;;|Gf55ozPR^``?)wne<1E*aqkfNtk8f;G4xJx
zUl&)?)eQZ+@)~-Vq~DWtT2e#*A*rD|B>h)O8<HA&+8U3x=^DnpTYAgnGpr>&LnY}M
zdcO1w{h{<WNpGk03>_yuLobw`p}VE`9O*5W)X@9H4T<}Vetko`Rf>hhTq8a6d$#!m
zkVV35OV7}Ul=qL7_g<lgh3*&nw9sLpuL)hM@(gWOd4?`fDTY2Qy}y&*WzzeR&?_W0
z^btvaD(+8&O1Sap{F%^+LYFItp)*yop-Yt4&_|_rn)D7x&(Id>8Ty!{=Sq5&q=wFt
z)X-j)V(8=2dx7+Z)CY#nk)EL=l5UrDL{dY~lhn{7k~SsXCaIxwB{g(V*WD%Q>x5n=
z)X{Y<^ycT3_kg$w<y{ooF7z&;QI%rojmmqkxE+#ySm-w-HB=Y(QE^QnizNO9m26SN
z-=w^TUZ5O?z9i{4l;Z|T4ZTQGLtl~fyOQ20siBuhYUoi(e<JBkk{TM5)X>f1{!`Km
zR2K`XJt3)~mx;3&+uOw%dWAR(xjiM$(1qeG#`_L&hHg>G7V^C=&d@dLNkf+?hsA<#
zN^0m;;w&`$j5tGk#l0LiXq~n=LmhFKiklN>=z5iGXrH8)OS(%^L;J-Y6t_p5p)16_
zLEHu63|%Si&Ej4r&d}B3-XiW5;tX9Q?rq{O6ldsKaqkd!u{cB5iMvDG^+N9xdX=Px
z7S%%^689!a4-4HO^ru2M3R!sfj&c~fN!+I--6zh_&Emc&?iQiPg|3j)(4x4%5qG6H
zLvI)N9dTESGjvGYKZ(0WoS|FA{Y>1o;tX}g{X*Pz;tbuazBhE6q{|eZ{CY_Z-6E->
z+a+Bm=^G_Av?!^eJ0-nC(z}E#F8zCiEI9ppg)Bn-9|_$rz4r@QtojcKS-|=a3R%?p
zdxRd5-hDzAzy1Ls3u6DEkVUe8Na*X*dsyh3LT^(2EXdAB#aZa}j|o})^^Xf#5cVTN
zWgPHy9ucx|?4K60nCzbwvcT-07qaN=Ulg(s?OztMIPG5*vS96x30cJUuL)V$_P-Re
z*zI2zvH<QksD5wNb#D~9L+B<Ui|l^0&^_XA5wh^^i$WIO{p~`Zm-LX(qe8a|S+w`A
z&_9d2P3Y%Bw+sD3=uV;I@b1&OOK6qQdxX}57E6=W?%rkmYwBNll0_l@6Dy3Pp&|g;
ze@mB`AMf45w(C6;`cDio=|KRp|CTP*cXjs;5Rl8{1KJvo-2NjUSS&Rg-MwR+=4_1V
z|8aw+2LUj_U<19e#S(`C_U>FfZph?2ai1=^{YSoYv9yDK7ixd}l>V1?Om_DkSS;Z}
zdhZQ*D4y=_J&f;P{vF|xQ(c=!a8*3=J6K|#W)lgrj&*G!LG<leqHo&-f++9pu1y=*
zzTe)J!BTa+Yx9Q1(rmqJGXoF>Y2L7Soc66|xD3wV)4U>4scquG6)9U22dd9u2M0^K
zwB`_trFz99+{4?<f$pF<%^Y;Lf=e4Lv3PBh2ug(0gaKER6r*W^4%;F&SYq>_%@cIw
zcEZCQ>KDxv7E2A<rI`Zf<v6&Q!Ktz7uFVS;OBc*^Z8pF;TOw9DSelyb+Qfh(qmv$%
zE}$gM3@DQ-X=Xr~gnG9L0ZpSw8SvDY2FY0GH>1Wf!Z`xkfHYW|B=<%vyu}iMF3ghV
zC*jhA#?8Pvgp+f#nmI&Qr@0d*o~w1uEL|*3(QuidT#u{B@TAYxF9u6}lp}kSTLmQB
zl6z-I*Q`f4knBU;FoR?PQViWEyN_yfSIFAqwjp9|*DNO8EEKL`Opsg}y#%XW8+Z;L
HJnz2%nj6$$

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
index a99bb2e..0af667c 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.json
@@ -1,5 +1,5 @@
 {
-  "eng_extensive": [
+  "deu_traditional": [
     {
       "OT": {
         "includedBooks": [
@@ -43,12 +43,13 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "Old Testament",
-        "defaultAbbreviation": "OT",
+        "defaultName": "Das Alte Testament",
+        "defaultAbbreviation": "AT",
         "inputFields": [
-          "Old Testament",
-          "OT",
-          "Old Tstmnt"
+          "Das Alte Testament",
+          "AT",
+          "Alte Testament",
+          "Alte Tstmnt"
         ]
       },
       "PT": {
@@ -71,6 +72,80 @@
           "Bks of Moses"
         ]
       },
+      "D1": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU",
+          "JOS",
+          "JDG",
+          "RUT",
+          "SA1",
+          "SA2",
+          "KI1",
+          "KI2",
+          "CH1",
+          "CH2",
+          "EZR",
+          "NEH",
+          "EST"
+        ],
+        "defaultName": "Geschichtbücher",
+        "defaultAbbreviation": "Geschicht",
+        "inputFields": [
+          "Geschichtbücher",
+          "Geschichtbucher",
+          "Gschchtbchr"
+        ]
+      },
+      "D2": {
+        "includedBooks": [
+          "JOB",
+          "PSA",
+          "PRO",
+          "ECC",
+          "SNG"
+        ],
+        "defaultName": "Lehrbücher und Psalmen",
+        "defaultAbbreviation": "LuP",
+        "inputFields": [
+          "Lehrbücher und Psalmen",
+          "LuP",
+          "Lehrbucher und Psalmen",
+          "Lehrbücher Psalmen",
+          "Lhrbchr und Pslmn"
+        ]
+      },
+      "PR": {
+        "includedBooks": [
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "Prophetenbücher",
+        "defaultAbbreviation": "Prop",
+        "inputFields": [
+          "Prophetenbücher",
+          "Prophetenbucher",
+          "Prphtnbchr"
+        ]
+      },
       "MJ": {
         "includedBooks": [
           "ISA",
@@ -141,12 +216,71 @@
           "JDE",
           "REV"
         ],
-        "defaultName": "New Testament",
+        "defaultName": "Das Neue Testament",
         "defaultAbbreviation": "NT",
         "inputFields": [
-          "New Testament",
+          "Das Neue Testament",
           "NT",
-          "Nw Tstmnt"
+          "Neue Testament",
+          "Neue Tstmnt"
+        ]
+      },
+      "GA": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN",
+          "ACT"
+        ],
+        "defaultName": "Geschichtbücher",
+        "defaultAbbreviation": "NTGesch",
+        "inputFields": [
+          "Geschichtbücher",
+          "NTGesch",
+          "Geschichtbucher"
+        ]
+      },
+      "D3": {
+        "includedBooks": [
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "PE1",
+          "PE2",
+          "JN1",
+          "JN2",
+          "JN3",
+          "HEB",
+          "JAM",
+          "JDE"
+        ],
+        "defaultName": "Briefe",
+        "defaultAbbreviation": "Brf",
+        "inputFields": [
+          "Briefe",
+          "Brf"
+        ]
+      },
+      "d4": {
+        "includedBooks": [
+          "REV"
+        ],
+        "defaultName": "Prophetisches Buch",
+        "defaultAbbreviation": "PB",
+        "inputFields": [
+          "Prophetisches Buch",
+          "PB",
+          "Prphtschs Bch"
         ]
       },
       "GO": {
@@ -193,69 +327,42 @@
           "Paul's letters",
           "Paul's ltrs"
         ]
-      },
-      "DC": {
-        "includedBooks": [
-          "TOB",
-          "JDT",
-          "ESG",
-          "WIS",
-          "SIR",
-          "LJE",
-          "PAZ",
-          "SUS",
-          "BEL",
-          "MA1",
-          "MA2",
-          "GES",
-          "LES",
-          "MAN"
-        ],
-        "defaultName": "Deuterocanon",
-        "defaultAbbreviation": "DC",
-        "inputFields": [
-          "Deuterocanon",
-          "DC",
-          "DtrCnn",
-          "Apocrypha",
-          "Apcrypha"
-        ]
       }
     },
     {
       "1 ": [
         "I ",
-        "First ",
+        "Erste ",
         "Frst ",
         "1st ",
-        "One "
+        "Ein "
       ],
       "2 ": [
         "II ",
-        "Second ",
-        "Scnd ",
+        "Zweite ",
+        "Zwte ",
         "2nd ",
-        "Two "
+        "Zwei "
       ],
       "3 ": [
         "III ",
-        "Third ",
-        "Thrd ",
+        "Dritte ",
+        "Drtte ",
         "3rd ",
-        "Three "
+        "Drei "
       ],
       "4 ": [
         "IV ",
-        "Fourth ",
-        "Forth ",
-        "Frth ",
+        "Vierte ",
+        "Vrte ",
         "4th ",
         "Four "
       ],
       "5 ": [
         "V ",
-        "Fifth ",
-        "Ffth ",
+        "Fünfte ",
+        "Funfte ",
+        "Fnfte ",
         "5th ",
         "Five "
       ],
@@ -265,95 +372,87 @@
         "Sxth ",
         "6th ",
         "Six "
-      ],
-      "Saint ": [
-        "Snt ",
-        "St ",
-        "Snt. ",
-        "St. "
       ]
     },
     {
       "GEN": {
-        "defaultName": "Genesis",
-        "defaultAbbreviation": "Gen",
+        "defaultName": "1 Moses",
+        "defaultAbbreviation": "1 Mos",
         "inputFields": [
-          "Genesis",
-          "Gen",
-          "Gnss",
           "1 Moses",
-          "1 Mss"
+          "1 Mos",
+          "1 Mss",
+          "Genesis",
+          "Gns"
         ]
       },
       "EXO": {
-        "defaultName": "Exodus",
-        "defaultAbbreviation": "Exo",
+        "defaultName": "2 Moses",
+        "defaultAbbreviation": "2 Mos",
         "inputFields": [
-          "Exodus",
-          "Exo",
-          "Exds",
           "2 Moses",
-          "2 Mss"
+          "2 Mos",
+          "2 Mss",
+          "Exodus",
+          "Exds"
         ]
       },
       "LEV": {
-        "defaultName": "Leviticus",
-        "defaultAbbreviation": "Lev",
+        "defaultName": "3 Moses",
+        "defaultAbbreviation": "3 Mos",
         "inputFields": [
-          "Leviticus",
-          "Lev",
-          "Lvtcs",
           "3 Moses",
-          "3 Mss"
+          "3 Mos",
+          "3 Mss",
+          "Levitikus",
+          "Lvtks"
         ]
       },
       "NUM": {
-        "defaultName": "Numbers",
-        "defaultAbbreviation": "Num",
+        "defaultName": "4 Moses",
+        "defaultAbbreviation": "4 Mos",
         "inputFields": [
-          "Numbers",
-          "Num",
-          "Nmbrs",
           "4 Moses",
-          "4 Mss"
+          "4 Mos",
+          "4 Mss",
+          "Numeri",
+          "Nmr"
         ]
       },
       "DEU": {
-        "defaultName": "Deuteronomy",
-        "defaultAbbreviation": "Deu",
+        "defaultName": "5 Moses",
+        "defaultAbbreviation": "5 Mos",
         "inputFields": [
-          "Deuteronomy",
-          "Deu",
-          "Dtrnmy",
           "5 Moses",
-          "5 Mss"
+          "5 Mos",
+          "5 Mss",
+          "Deuteronomium",
+          "Dtrnmm"
         ]
       },
       "JOS": {
-        "defaultName": "Joshua",
-        "defaultAbbreviation": "Josh",
+        "defaultName": "Josua",
+        "defaultAbbreviation": "Jos",
         "inputFields": [
-          "Joshua",
-          "Josh",
-          "Jsh"
+          "Josua",
+          "Jos",
+          "Js"
         ]
       },
       "JDG": {
-        "defaultName": "Judges",
-        "defaultAbbreviation": "Jdg",
+        "defaultName": "Richter",
+        "defaultAbbreviation": "Rchtr",
         "inputFields": [
-          "Judges",
-          "Jdg",
-          "Jdgs"
+          "Richter",
+          "Rchtr"
         ]
       },
       "RUT": {
-        "defaultName": "Ruth",
+        "defaultName": "Rut",
         "defaultAbbreviation": "Rut",
         "inputFields": [
-          "Ruth",
           "Rut",
-          "Rth"
+          "Rt"
         ]
       },
       "SA1": {
@@ -362,8 +461,7 @@
         "inputFields": [
           "1 Samuel",
           "1 Sam",
-          "1 Sml",
-          "1 Sl"
+          "1 Sml"
         ]
       },
       "SA2": {
@@ -372,168 +470,160 @@
         "inputFields": [
           "2 Samuel",
           "2 Sam",
-          "2 Sml",
-          "2 Sl"
+          "2 Sml"
         ]
       },
       "KI1": {
-        "defaultName": "1 Kings",
-        "defaultAbbreviation": "1 Kgs",
+        "defaultName": "1 Könige",
+        "defaultAbbreviation": "1 Kng",
         "inputFields": [
-          "1 Kings",
-          "1 Kgs",
-          "1 Kngs",
-          "1 Ks"
+          "1 Könige",
+          "1 Kng"
         ]
       },
       "KI2": {
-        "defaultName": "2 Kings",
-        "defaultAbbreviation": "2 Kgs",
+        "defaultName": "2 Könige",
+        "defaultAbbreviation": "2 Kng",
         "inputFields": [
-          "2 Kings",
-          "2 Kgs",
-          "2 Kngs",
-          "2 Ks"
+          "2 Könige",
+          "2 Kng"
         ]
       },
       "CH1": {
-        "defaultName": "1 Chronicles",
+        "defaultName": "1 Chronik",
         "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "1 Chronicles",
+          "1 Chronik",
           "1 Chr",
-          "1 Chrnc",
-          "1 Cronic",
-          "1 Crnc"
+          "1 Chrnk",
+          "1 Cronik",
+          "1 Crnk"
         ]
       },
       "CH2": {
-        "defaultName": "2 Chronicles",
+        "defaultName": "2 Chronik",
         "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "2 Chronicles",
+          "2 Chronik",
           "2 Chr",
-          "2 Chrnc",
-          "2 Cronic",
-          "2 Crnc"
+          "2 Chrnk",
+          "2 Cronik",
+          "2 Crnk"
         ]
       },
       "EZR": {
-        "defaultName": "Ezra",
-        "defaultAbbreviation": "Ezr",
+        "defaultName": "Esra",
+        "defaultAbbreviation": "Esr",
         "inputFields": [
-          "Ezra",
-          "Ezr"
+          "Esra",
+          "Esr"
         ]
       },
       "NEH": {
-        "defaultName": "Nehemiah",
+        "defaultName": "Nehemia",
         "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Nehemiah",
+          "Nehemia",
           "Neh",
-          "Nhmh"
+          "Nhmia"
         ]
       },
       "EST": {
-        "defaultName": "Esther",
+        "defaultName": "Ester",
         "defaultAbbreviation": "Est",
         "inputFields": [
-          "Esther",
+          "Ester",
           "Est",
-          "Esthr",
           "Estr"
         ]
       },
       "JOB": {
-        "defaultName": "Job",
-        "defaultAbbreviation": "Job",
+        "defaultName": "Hiob",
+        "defaultAbbreviation": "Hiob",
         "inputFields": [
-          "Job",
+          "Hiob",
+          "Hb",
           "Jb"
         ]
       },
       "PSA": {
-        "defaultName": "Psalms",
+        "defaultName": "Psalter",
         "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Psalms",
+          "Psalter",
           "Psa",
-          "Pslms"
+          "Psltr",
+          "Psalm",
+          "Pslm"
         ]
       },
       "PRO": {
-        "defaultName": "Proverbs",
-        "defaultAbbreviation": "Pro",
+        "defaultName": "Sprüche",
+        "defaultAbbreviation": "Spr",
         "inputFields": [
-          "Proverbs",
-          "Pro",
-          "Prvrbs",
-          "Prvbs"
+          "Sprüche",
+          "Spr",
+          "Sprch",
+          "Sprichwörter"
         ]
       },
       "ECC": {
-        "defaultName": "Ecclesiastes",
-        "defaultAbbreviation": "Ecc",
+        "defaultName": "Prediger",
+        "defaultAbbreviation": "Pred",
         "inputFields": [
-          "Ecclesiastes",
-          "Ecc",
-          "Ecclsts",
-          "Qoheleth",
-          "Qhlth"
+          "Prediger",
+          "Pred",
+          "Prdgr",
+          "Kohelet",
+          "Khlt"
         ]
       },
       "SNG": {
-        "defaultName": "Song of Solomon",
-        "defaultAbbreviation": "Sng",
+        "defaultName": "Hoheslied",
+        "defaultAbbreviation": "Hoh",
         "inputFields": [
-          "Song of Solomon",
-          "Sng",
-          "Sng of Slmn",
-          "Song of Songs",
-          "Sng of Sngs",
-          "SoS",
-          "SS",
-          "Canticle of Canticles",
-          "Cntcl of Cntcl",
-          "CoC",
-          "CC"
+          "Hoheslied",
+          "Hoh",
+          "Hohelied Salomos",
+          "Hhld"
         ]
       },
       "ISA": {
-        "defaultName": "Isaiah",
-        "defaultAbbreviation": "Isa",
+        "defaultName": "Jesaja",
+        "defaultAbbreviation": "Jes",
         "inputFields": [
-          "Isaiah",
-          "Isa"
+          "Jesaja",
+          "Jes",
+          "Jsj"
         ]
       },
       "JER": {
-        "defaultName": "Jeremiah",
+        "defaultName": "Jeremia",
         "defaultAbbreviation": "Jer",
         "inputFields": [
-          "Jeremiah",
+          "Jeremia",
           "Jer",
-          "Jrmh"
+          "Jrm"
         ]
       },
       "LAM": {
-        "defaultName": "Lamentations",
-        "defaultAbbreviation": "Lam",
+        "defaultName": "Klagelieder",
+        "defaultAbbreviation": "Klag",
         "inputFields": [
-          "Lamentations",
-          "Lam",
-          "Lmnts",
-          "Lamentations of Jeremiah"
+          "Klagelieder",
+          "Klag",
+          "Klgldr"
         ]
       },
       "EZE": {
-        "defaultName": "Ezekiel",
-        "defaultAbbreviation": "Eze",
+        "defaultName": "Hesekiel",
+        "defaultAbbreviation": "Hes",
         "inputFields": [
-          "Ezekiel",
-          "Eze",
-          "Ezkl"
+          "Hesekiel",
+          "Hes",
+          "Hskl",
+          "Ezechiel",
+          "Ezchl"
         ]
       },
       "DAN": {
@@ -571,32 +661,30 @@
         ]
       },
       "OBA": {
-        "defaultName": "Obadiah",
+        "defaultName": "Obadja",
         "defaultAbbreviation": "Oba",
         "inputFields": [
-          "Obadiah",
+          "Obadja",
           "Oba",
-          "Obdh"
+          "Obdj"
         ]
       },
       "JNA": {
-        "defaultName": "Jonah",
+        "defaultName": "Jona",
         "defaultAbbreviation": "Jon",
         "inputFields": [
-          "Jonah",
+          "Jona",
           "Jon",
-          "Jnh"
+          "Jna"
         ]
       },
       "MIC": {
-        "defaultName": "Micah",
+        "defaultName": "Micha",
         "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Micah",
+          "Micha",
           "Mic",
-          "Mcah",
-          "Mich",
-          "Mch"
+          "Mcha"
         ]
       },
       "NAH": {
@@ -611,27 +699,21 @@
         ]
       },
       "HAB": {
-        "defaultName": "Habakkuk",
+        "defaultName": "Habakuk",
         "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Habakkuk",
-          "Hab",
-          "Hbkk",
-          "Habbakkuk",
-          "Habbakuk",
           "Habakuk",
-          "Hbbkk"
+          "Hab",
+          "Hbkk"
         ]
       },
       "ZEP": {
-        "defaultName": "Zephaniah",
-        "defaultAbbreviation": "Zep",
+        "defaultName": "Zefanja",
+        "defaultAbbreviation": "Zef",
         "inputFields": [
-          "Zephaniah",
-          "Zep",
-          "Zphnh",
-          "Zefaniah",
-          "Zfnh"
+          "Zefanja",
+          "Zef",
+          "Zfnja"
         ]
       },
       "HAG": {
@@ -645,202 +727,174 @@
         ]
       },
       "ZEC": {
-        "defaultName": "Zechariah",
-        "defaultAbbreviation": "Zec",
+        "defaultName": "Sacharja",
+        "defaultAbbreviation": "Sach",
         "inputFields": [
-          "Zechariah",
-          "Zec",
-          "Zchrh"
+          "Sacharja",
+          "Sach",
+          "Schrja"
         ]
       },
       "MAL": {
-        "defaultName": "Malachi",
+        "defaultName": "Maleachi",
         "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Malachi",
+          "Maleachi",
           "Mal",
           "Mlchi"
         ]
       },
       "MAT": {
-        "defaultName": "Matthew",
+        "defaultName": "Matthäus",
         "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Matthew",
+          "Matthäus",
           "Mat",
-          "Mtthw",
-          "Mthw",
-          "Mtw",
-          "Mw",
-          "Saint Matthew",
-          "Saint Mtthw",
-          "Saint Mthw",
-          "Saint Mtw",
-          "Saint Mw"
+          "Matthaus",
+          "Mtths",
+          "Mths"
         ]
       },
       "MRK": {
-        "defaultName": "Mark",
+        "defaultName": "Markus",
         "defaultAbbreviation": "Mrk",
         "inputFields": [
-          "Mark",
+          "Markus",
           "Mrk",
-          "Mk",
-          "Saint Mark",
-          "Saint Mrk",
-          "Saint Mk"
+          "Mrks",
+          "Mks"
         ]
       },
       "LUK": {
-        "defaultName": "Luke",
+        "defaultName": "Lukas",
         "defaultAbbreviation": "Luk",
         "inputFields": [
-          "Luke",
+          "Lukas",
           "Luk",
-          "Lke",
-          "Saint Luke",
-          "Saint Lk"
+          "Lks"
         ]
       },
       "JHN": {
-        "defaultName": "John",
+        "defaultName": "Johannes",
         "defaultAbbreviation": "Jhn",
         "inputFields": [
-          "John",
+          "Johannes",
           "Jhn",
-          "Jn",
-          "Saint John",
-          "Saint Jhn",
-          "Saint Jn"
+          "Jhnns",
+          "Jn"
         ]
       },
       "ACT": {
-        "defaultName": "Acts",
-        "defaultAbbreviation": "Act",
+        "defaultName": "Apostelgeschichte",
+        "defaultAbbreviation": "Apst",
         "inputFields": [
-          "Acts",
-          "Act",
-          "Ats",
-          "Acts of the Apostles"
+          "Apostelgeschichte",
+          "Apst",
+          "Apstlgschchte"
         ]
       },
       "ROM": {
-        "defaultName": "Romans",
-        "defaultAbbreviation": "Rom",
+        "defaultName": "Römer",
+        "defaultAbbreviation": "Röm",
         "inputFields": [
-          "Romans",
-          "Rom",
-          "Rmns"
+          "Römer",
+          "Röm",
+          "Romer",
+          "Rmr"
         ]
       },
       "CO1": {
-        "defaultName": "1 Corinthians",
-        "defaultAbbreviation": "1 Cor",
+        "defaultName": "1 Korinther",
+        "defaultAbbreviation": "1 Kor",
         "inputFields": [
-          "1 Corinthians",
-          "1 Cor",
-          "1 Crnthns"
+          "1 Korinther",
+          "1 Kor",
+          "1 Krnthr"
         ]
       },
       "CO2": {
-        "defaultName": "2 Corinthians",
-        "defaultAbbreviation": "2 Cor",
+        "defaultName": "2 Korinther",
+        "defaultAbbreviation": "2 Kor",
         "inputFields": [
-          "2 Corinthians",
-          "2 Cor",
-          "2 Crnthns"
+          "2 Korinther",
+          "2 Kor",
+          "2 Krnthr"
         ]
       },
       "GAL": {
-        "defaultName": "Galatians",
+        "defaultName": "Galater",
         "defaultAbbreviation": "Gal",
         "inputFields": [
-          "Galatians",
+          "Galater",
           "Gal",
-          "Gltns"
+          "Gltr"
         ]
       },
       "EPH": {
-        "defaultName": "Ephesians",
+        "defaultName": "Epheser",
         "defaultAbbreviation": "Eph",
         "inputFields": [
-          "Ephesians",
+          "Epheser",
           "Eph",
-          "Ephsns",
-          "Efsns"
+          "Ephsr"
         ]
       },
       "PHP": {
-        "defaultName": "Philippians",
+        "defaultName": "Philipper",
         "defaultAbbreviation": "Php",
         "inputFields": [
-          "Philippians",
+          "Philipper",
           "Php",
-          "Phlppns",
-          "Phlpns",
-          "Phillippians",
-          "Phillipians",
-          "Philipians",
-          "Flppns",
-          "Flpns"
+          "Phlppr",
+          "Phlpr"
         ]
       },
       "COL": {
-        "defaultName": "Colossians",
-        "defaultAbbreviation": "Col",
+        "defaultName": "Kolosser",
+        "defaultAbbreviation": "Kol",
         "inputFields": [
-          "Colossians",
-          "Col",
-          "Clssns",
-          "Clsns",
-          "Cllssns",
-          "Collosians",
-          "Collossians",
-          "Colosians"
+          "Kolosser",
+          "Kol",
+          "Klssr",
+          "Klsr"
         ]
       },
       "TH1": {
-        "defaultName": "1 Thessalonians",
+        "defaultName": "1 Thessalonicher",
         "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "1 Thessalonians",
+          "1 Thessalonicher",
           "1 Thess",
-          "1 Thsslns",
-          "1 Thslns",
-          "1 Thesallonians",
-          "1 Thessallonians",
-          "1 Thesalonians"
+          "1 Thsslchr",
+          "1 Thslchr"
         ]
       },
       "TH2": {
-        "defaultName": "2 Thessalonians",
+        "defaultName": "2 Thessalonicher",
         "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "2 Thessalonians",
+          "2 Thessalonicher",
           "2 Thess",
-          "2 Thsslns",
-          "2 Thslns",
-          "2 Thesallonians",
-          "2 Thessallonians",
-          "2 Thesalonians"
+          "2 Thsslchr",
+          "2 Thslchr"
         ]
       },
       "TI1": {
-        "defaultName": "1 Timothy",
+        "defaultName": "1 Timotheus",
         "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "1 Timothy",
+          "1 Timotheus",
           "1 Tim",
-          "1 Tmthy"
+          "1 Tmths"
         ]
       },
       "TI2": {
-        "defaultName": "2 Timothy",
+        "defaultName": "2 Timotheus",
         "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "2 Timothy",
+          "2 Timotheus",
           "2 Tim",
-          "2 Tmthy"
+          "2 Tmths"
         ]
       },
       "TIT": {
@@ -858,92 +912,102 @@
         "inputFields": [
           "Philemon",
           "Phm",
-          "Phlmn",
-          "Flmn"
-        ]
-      },
-      "HEB": {
-        "defaultName": "Hebrews",
-        "defaultAbbreviation": "Heb",
-        "inputFields": [
-          "Hebrews",
-          "Heb",
-          "Hbrws"
-        ]
-      },
-      "JAM": {
-        "defaultName": "James",
-        "defaultAbbreviation": "Jam",
-        "inputFields": [
-          "James",
-          "Jam",
-          "Jms",
-          "Jmes",
-          "Jas"
+          "Phlmn"
         ]
       },
       "PE1": {
-        "defaultName": "1 Peter",
+        "defaultName": "1 Petrus",
         "defaultAbbreviation": "1 Pet",
         "inputFields": [
-          "1 Peter",
+          "1 Petrus",
           "1 Pet",
-          "1 Ptr"
+          "1 Ptrs"
         ]
       },
       "PE2": {
-        "defaultName": "2 Peter",
+        "defaultName": "2 Petrus",
         "defaultAbbreviation": "2 Pet",
         "inputFields": [
-          "2 Peter",
+          "2 Petrus",
           "2 Pet",
-          "2 Ptr"
+          "2 Ptrs"
         ]
       },
       "JN1": {
-        "defaultName": "1 John",
+        "defaultName": "1 Johannes",
         "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "1 John",
+          "1 Johannes",
           "1 Jn",
-          "1 Jhn"
+          "1 Jhnns",
+          "1 Jns",
+          "1 Johanes",
+          "1 Johhanes",
+          "1 Johhannes"
         ]
       },
       "JN2": {
-        "defaultName": "2 John",
+        "defaultName": "2 Johannes",
         "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "2 John",
+          "2 Johannes",
           "2 Jn",
-          "2 Jhn"
+          "2 Jhnns",
+          "2 Jns",
+          "2 Johanes",
+          "2 Johhanes",
+          "2 Johhannes"
         ]
       },
       "JN3": {
-        "defaultName": "3 John",
+        "defaultName": "3 Johannes",
         "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "3 John",
+          "3 Johannes",
           "3 Jn",
-          "3 Jhn"
+          "3 Jhnns",
+          "3 Jns",
+          "3 Johanes",
+          "3 Johhanes",
+          "3 Johhannes"
+        ]
+      },
+      "HEB": {
+        "defaultName": "Hebräer",
+        "defaultAbbreviation": "Heb",
+        "inputFields": [
+          "Hebräer",
+          "Heb",
+          "Hebraer",
+          "Hbrr"
+        ]
+      },
+      "JAM": {
+        "defaultName": "Jakobus",
+        "defaultAbbreviation": "Jak",
+        "inputFields": [
+          "Jakobus",
+          "Jak",
+          "Jkbs"
         ]
       },
       "JDE": {
-        "defaultName": "Jude",
+        "defaultName": "Judas",
         "defaultAbbreviation": "Jud",
         "inputFields": [
-          "Jude",
+          "Judas",
           "Jud",
-          "Jde"
+          "Jds"
         ]
       },
       "REV": {
-        "defaultName": "Revelation",
-        "defaultAbbreviation": "Rev",
+        "defaultName": "Offenbarung",
+        "defaultAbbreviation": "Off",
         "inputFields": [
-          "Revelation",
-          "Rev",
-          "Rvltn",
-          "Rvln"
+          "Offenbarung",
+          "Off",
+          "Offnbrng",
+          "Ofnbrng"
         ]
       },
       "BAR": {
@@ -970,8 +1034,7 @@
         "inputFields": [
           "Prayer of Azariah",
           "PrAz",
-          "Pryr Azrh",
-          "Azariah"
+          "Pryr Azrh"
         ]
       },
       "BEL": {
@@ -993,14 +1056,12 @@
         ]
       },
       "GES": {
-        "defaultName": "Greek Esdras",
-        "defaultAbbreviation": "GrkEsd",
+        "defaultName": "1 Esdras",
+        "defaultAbbreviation": "1 Esd",
         "inputFields": [
-          "Greek Esdras",
-          "GrkEsd",
-          "Gk Esdras",
           "1 Esdras",
-          "2 Ezra"
+          "1 Esd",
+          "1 Esdrs"
         ]
       },
       "LES": {
@@ -1134,14 +1195,6 @@
           "5 Mcbs"
         ]
       },
-      "MAC": {
-        "defaultName": "Combined Maccabees",
-        "defaultAbbreviation": "Mac",
-        "inputFields": [
-          "Combined Maccabees",
-          "Mac"
-        ]
-      },
       "PSB": {
         "defaultName": "Psalms B",
         "defaultAbbreviation": "LitPs",
@@ -1274,10 +1327,12 @@
       },
       "TTP": {
         "defaultName": "Testaments of the Twelve Patriarchs",
-        "defaultAbbreviation": "Tst12Patr",
+        "defaultAbbreviation": "Tst12",
         "inputFields": [
           "Testaments of the Twelve Patriarchs",
-          "Tst12Patr"
+          "Tst12",
+          "Tst 12P",
+          "Tst Twelve"
         ]
       },
       "JUB": {
@@ -1434,11 +1489,11 @@
       },
       "LJB": {
         "defaultName": "Epistle of Jeremiah (with Baruch)",
-        "defaultAbbreviation": "EpJerBar",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
           "Epistle of Jeremiah (with Baruch)",
-          "EpJerBar",
-          "Ep Jer Bar"
+          "EpJer",
+          "Ep Jer"
         ]
       },
       "CL1": {
@@ -1461,10 +1516,13 @@
       },
       "SHE": {
         "defaultName": "Shepherd of Hermas",
-        "defaultAbbreviation": "ShepHermas",
+        "defaultAbbreviation": "Her",
         "inputFields": [
           "Shepherd of Hermas",
-          "ShepHermas"
+          "Her",
+          "Hermas",
+          "Hrms",
+          "Shep Hermas"
         ]
       },
       "DID": {
@@ -1521,46 +1579,6 @@
           "Ezr Neh"
         ]
       },
-      "ESA": {
-        "defaultName": "Greek Additions to Esther",
-        "defaultAbbreviation": "EstGrk+",
-        "inputFields": [
-          "Greek Additions to Esther",
-          "EstGrk+"
-        ]
-      },
-      "ESC": {
-        "defaultName": "Combined Hebrew/Greek Esther",
-        "defaultAbbreviation": "EstComb",
-        "inputFields": [
-          "Combined Hebrew/Greek Esther",
-          "EstComb"
-        ]
-      },
-      "DNA": {
-        "defaultName": "Greek Additions to Daniel",
-        "defaultAbbreviation": "DanGrk+",
-        "inputFields": [
-          "Greek Additions to Daniel",
-          "DanGrk+"
-        ]
-      },
-      "DNC": {
-        "defaultName": "Combined Hebrew/Greek Daniel",
-        "defaultAbbreviation": "DanComb",
-        "inputFields": [
-          "Combined Hebrew/Greek Daniel",
-          "DanComb"
-        ]
-      },
-      "LKA": {
-        "defaultName": "Luke-Acts",
-        "defaultAbbreviation": "LkAct",
-        "inputFields": [
-          "Luke-Acts",
-          "LkAct"
-        ]
-      },
       "P12": {
         "defaultName": "Twelve Prophets",
         "defaultAbbreviation": "TwProp",
@@ -1569,1651 +1587,1506 @@
           "TwProp",
           "12 Prophets"
         ]
-      },
-      "LB2": {
-        "defaultName": "2 Baruch with Letter",
-        "defaultAbbreviation": "2BarLet",
-        "inputFields": [
-          "2 Baruch with Letter",
-          "2BarLet"
-        ]
-      },
-      "LBB": {
-        "defaultName": "Letter of Barnabas",
-        "defaultAbbreviation": "LetBarn",
+      }
+    }
+  ],
+  "dut_traditional": [
+    {
+      "OT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU",
+          "JOS",
+          "JDG",
+          "RUT",
+          "SA1",
+          "SA2",
+          "KI1",
+          "KI2",
+          "CH1",
+          "CH2",
+          "EZR",
+          "NEH",
+          "EST",
+          "JOB",
+          "PSA",
+          "PRO",
+          "ECC",
+          "SNG",
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "XXX-DUT-Ancien Testament",
+        "defaultAbbreviation": "XXX-DUT-AT",
         "inputFields": [
-          "Letter of Barnabas",
-          "LetBarn"
+          "XXX-DUT-Ancien Testament",
+          "XXX-DUT-AT",
+          "XXX-DUT-L'Ancien Testament",
+          "XXX-DUT-L'Ancien Tstmnt"
         ]
       },
-      "PB1": {
-        "defaultName": "Psalms Book 1",
-        "defaultAbbreviation": "PsBk1",
+      "PT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU"
+        ],
+        "defaultName": "XXX-DUT-Pentateuch",
+        "defaultAbbreviation": "XXX-DUT-Pent",
         "inputFields": [
-          "Psalms Book 1",
-          "PsBk1"
+          "XXX-DUT-Pentateuch",
+          "XXX-DUT-Pnttch",
+          "XXX-DUT-Torah",
+          "XXX-DUT-Trh",
+          "XXX-DUT-Moses' books",
+          "XXX-DUT-Books of Moses",
+          "XXX-DUT-Bks of Moses"
         ]
       },
-      "PB2": {
-        "defaultName": "Psalms Book 2",
-        "defaultAbbreviation": "PsBk2",
+      "MJ": {
+        "includedBooks": [
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "BAR"
+        ],
+        "defaultName": "XXX-DUT-Major Prophets",
+        "defaultAbbreviation": "XXX-DUT-MajProps",
         "inputFields": [
-          "Psalms Book 2",
-          "PsBk2"
+          "XXX-DUT-Major Prophets",
+          "XXX-DUT-MajProps",
+          "XXX-DUT-Mjr Prphts"
         ]
       },
-      "PB3": {
-        "defaultName": "Psalms Book 3",
-        "defaultAbbreviation": "PsBk3",
+      "MN": {
+        "includedBooks": [
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "XXX-DUT-Minor Prophets",
+        "defaultAbbreviation": "XXX-DUT-MinProp",
         "inputFields": [
-          "Psalms Book 3",
-          "PsBk3"
+          "XXX-DUT-Minor Prophets",
+          "XXX-DUT-MinProp",
+          "XXX-DUT-Mnr Prphts"
         ]
       },
-      "PB4": {
-        "defaultName": "Psalms Book 4",
-        "defaultAbbreviation": "PsBk4",
+      "NT": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN",
+          "ACT",
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB",
+          "JAM",
+          "PE1",
+          "PE2",
+          "JN1",
+          "JN2",
+          "JN3",
+          "JDE",
+          "REV"
+        ],
+        "defaultName": "XXX-DUT-Nouveau Testament",
+        "defaultAbbreviation": "XXX-DUT-NT",
         "inputFields": [
-          "Psalms Book 4",
-          "PsBk4"
+          "XXX-DUT-Nouveau Testament",
+          "XXX-DUT-NT",
+          "XXX-DUT-Le Nouveau Testament",
+          "XXX-DUT-Nv Tstmnt"
         ]
       },
-      "PB5": {
-        "defaultName": "Psalms Book 5",
-        "defaultAbbreviation": "PsBk5",
+      "GO": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN"
+        ],
+        "defaultName": "XXX-DUT-Gospels",
+        "defaultAbbreviation": "XXX-DUT-Gosp",
         "inputFields": [
-          "Psalms Book 5",
-          "PsBk5"
+          "XXX-DUT-Gospels",
+          "XXX-DUT-Gspls"
         ]
       },
-      "RVE": {
-        "defaultName": "Revelation of Ezra",
-        "defaultAbbreviation": "RevEzra",
+      "PL": {
+        "includedBooks": [
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB"
+        ],
+        "defaultName": "XXX-DUT-Pauline Epistles",
+        "defaultAbbreviation": "XXX-DUT-EpPaul",
         "inputFields": [
-          "Revelation of Ezra",
-          "RevEzra"
+          "XXX-DUT-Pauline Epistles",
+          "XXX-DUT-EpPaul",
+          "XXX-DUT-Paul's epistles",
+          "XXX-DUT-Epistles of Paul",
+          "XXX-DUT-Ep of Paul",
+          "XXX-DUT-Letters of Paul",
+          "XXX-DUT-Ltrs of Paul",
+          "XXX-DUT-Paul's letters",
+          "XXX-DUT-Paul's ltrs"
         ]
-      },
-      "VSE": {
-        "defaultName": "Vison of Ezra",
-        "defaultAbbreviation": "VisEzra",
+      }
+    },
+    {
+      "1 ": [
+        "I ",
+        "XXX-DUT-Première ",
+        "XXX-DUT-Premiere ",
+        "XXX-DUT-Prmre ",
+        "1st ",
+        "One "
+      ],
+      "2 ": [
+        "II ",
+        "XXX-DUT-Seconde ",
+        "XXX-DUT-Scnde ",
+        "2nd ",
+        "Two "
+      ],
+      "3 ": [
+        "III ",
+        "XXX-DUT-Troisième ",
+        "XXX-DUT-Troisieme ",
+        "XXX-DUT-Trsme ",
+        "3rd ",
+        "Three "
+      ],
+      "4 ": [
+        "IV ",
+        "XXX-DUT-Quatrième ",
+        "XXX-DUT-Quatrieme ",
+        "XXX-DUT-Qutrme ",
+        "XXX-DUT-Qtrme ",
+        "4th ",
+        "Four "
+      ],
+      "5 ": [
+        "V ",
+        "XXX-DUT-Cinquième ",
+        "XXX-DUT-Cinquieme ",
+        "XXX-DUT-Cnqme ",
+        "5th ",
+        "Five "
+      ],
+      "6 ": [
+        "VI ",
+        "XXX-DUT-Sixth ",
+        "XXX-DUT-Sxth ",
+        "6th ",
+        "Six "
+      ],
+      "Saint ": [
+        "XXX-DUT-Snt ",
+        "XXX-DUT-St ",
+        "XXX-DUT-Snt. ",
+        "St. "
+      ]
+    },
+    {
+      "GEN": {
+        "defaultName": "Genesis",
+        "defaultAbbreviation": "Gen",
         "inputFields": [
-          "Vison of Ezra",
-          "VisEzra"
+          "Genesis",
+          "Gen",
+          "Genes",
+          "Gnss",
+          "1 Moses",
+          "1 Mss"
         ]
       },
-      "JRA": {
-        "defaultName": "Additions to Jeremiah / Rest of Jeremiah",
-        "defaultAbbreviation": "AddJer",
+      "EXO": {
+        "defaultName": "Exodus",
+        "defaultAbbreviation": "Exo",
         "inputFields": [
-          "Additions to Jeremiah / Rest of Jeremiah",
-          "AddJer"
+          "Exodus",
+          "Exo",
+          "Exds",
+          "2 Moses",
+          "2 Mss"
         ]
       },
-      "PSJ": {
-        "defaultName": "Pseudo-Josephus",
-        "defaultAbbreviation": "PsdJosp",
+      "LEV": {
+        "defaultName": "Leviticus",
+        "defaultAbbreviation": "Lev",
         "inputFields": [
-          "Pseudo-Josephus",
-          "PsdJosp"
+          "Leviticus",
+          "Lev",
+          "Levitic",
+          "Lvtcs",
+          "3 Moses",
+          "3 Mss"
         ]
       },
-      "GHE": {
-        "defaultName": "Gospel of the Hebrews",
-        "defaultAbbreviation": "GospHebr",
+      "NUM": {
+        "defaultName": "Numeri",
+        "defaultAbbreviation": "Num",
         "inputFields": [
-          "Gospel of the Hebrews",
-          "GospHebr"
+          "Numeri",
+          "Num",
+          "Nmr",
+          "4 Moses",
+          "4 Mss"
         ]
       },
-      "GTR": {
-        "defaultName": "Gospel of Truth",
-        "defaultAbbreviation": "GospTruth",
+      "DEU": {
+        "defaultName": "Deuteronomium",
+        "defaultAbbreviation": "Deu",
         "inputFields": [
-          "Gospel of Truth",
-          "GospTruth"
+          "Deuteronomium",
+          "Deu",
+          "Deuteronomum",
+          "Dtrnmm",
+          "5 Moses",
+          "5 Mss"
         ]
       },
-      "GMA": {
-        "defaultName": "Gospel of Mary",
-        "defaultAbbreviation": "GospMary",
+      "JOS": {
+        "defaultName": "Jozua",
+        "defaultAbbreviation": "Joz",
         "inputFields": [
-          "Gospel of Mary",
-          "GospMary"
+          "Jozua",
+          "Joz",
+          "Jzua"
         ]
       },
-      "GMC": {
-        "defaultName": "Gospel of Marcion",
-        "defaultAbbreviation": "GospMarcion",
+      "JDG": {
+        "defaultName": "Richteren",
+        "defaultAbbreviation": "Rich",
         "inputFields": [
-          "Gospel of Marcion",
-          "GospMarcion"
+          "Richteren",
+          "Rich",
+          "Rchteren",
+          "Rchtrn"
         ]
       },
-      "GTW": {
-        "defaultName": "Gospel of the Twelve",
-        "defaultAbbreviation": "Gosp12",
+      "RUT": {
+        "defaultName": "Ruth",
+        "defaultAbbreviation": "Rut",
         "inputFields": [
-          "Gospel of the Twelve",
-          "Gosp12"
+          "Ruth",
+          "Rut",
+          "Rth"
         ]
       },
-      "GPH": {
-        "defaultName": "Gospel of Philip",
-        "defaultAbbreviation": "GospPhil",
+      "SA1": {
+        "defaultName": "1 Samuel",
+        "defaultAbbreviation": "1 Sam",
         "inputFields": [
-          "Gospel of Philip",
-          "GospPhil"
+          "1 Samuel",
+          "1 Sam",
+          "1 Sml"
         ]
       },
-      "GTH": {
-        "defaultName": "Gospel of Thomas",
-        "defaultAbbreviation": "GospThom",
+      "SA2": {
+        "defaultName": "2 Samuel",
+        "defaultAbbreviation": "2 Sam",
         "inputFields": [
-          "Gospel of Thomas",
-          "GospThom"
+          "2 Samuel",
+          "2 Sam",
+          "2 Sml"
         ]
       },
-      "GJU": {
-        "defaultName": "Gospel of Judas",
-        "defaultAbbreviation": "GospJudas",
+      "KI1": {
+        "defaultName": "1 Koningen",
+        "defaultAbbreviation": "1 Kn",
         "inputFields": [
-          "Gospel of Judas",
-          "GospJudas"
+          "1 Koningen",
+          "1 Kn"
         ]
       },
-      "GBA": {
-        "defaultName": "Gospel of Bartholomew",
-        "defaultAbbreviation": "GospBart",
+      "KI2": {
+        "defaultName": "2 Koningen",
+        "defaultAbbreviation": "2 Kn",
         "inputFields": [
-          "Gospel of Bartholomew",
-          "GospBart"
+          "2 Koningen",
+          "2 Kn"
         ]
       },
-      "AJA": {
-        "defaultName": "Apocrypha of James / Apocryphal James",
-        "defaultAbbreviation": "ApocJames",
+      "CH1": {
+        "defaultName": "1 Kronieken",
+        "defaultAbbreviation": "1 Kro",
         "inputFields": [
-          "Apocrypha of James / Apocryphal James",
-          "ApocJames"
+          "1 Kronieken",
+          "1 Kro",
+          "1 Krnkn"
         ]
       },
-      "WJC": {
-        "defaultName": "Wisdom of Jesus Christ",
-        "defaultAbbreviation": "WisJC",
+      "CH2": {
+        "defaultName": "2 Kronieken",
+        "defaultAbbreviation": "2 Kro",
         "inputFields": [
-          "Wisdom of Jesus Christ",
-          "WisJC"
+          "2 Kronieken",
+          "2 Kro",
+          "2 Krnkn"
         ]
       },
-      "TAD": {
-        "defaultName": "Testament of Adam",
-        "defaultAbbreviation": "TstAdam",
+      "EZR": {
+        "defaultName": "Ezra",
+        "defaultAbbreviation": "Ezr",
         "inputFields": [
-          "Testament of Adam",
-          "TstAdam"
+          "Ezra",
+          "Ezr"
         ]
       },
-      "LAE": {
-        "defaultName": "Life of Adam and Eve",
-        "defaultAbbreviation": "AdamEve",
+      "NEH": {
+        "defaultName": "Nehemia",
+        "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Life of Adam and Eve",
-          "AdamEve"
+          "Nehemia",
+          "Neh",
+          "Nhmia"
         ]
       },
-      "ASS": {
-        "defaultName": "Assumption of Moses / Testament of Moses",
-        "defaultAbbreviation": "AssMos",
+      "EST": {
+        "defaultName": "Esther",
+        "defaultAbbreviation": "Est",
         "inputFields": [
-          "Assumption of Moses / Testament of Moses",
-          "AssMos"
+          "Esther",
+          "Est",
+          "Esthr",
+          "Estr"
         ]
       },
-      "TSO": {
-        "defaultName": "Testament of Solomon",
-        "defaultAbbreviation": "TstSol",
+      "JOB": {
+        "defaultName": "Job",
+        "defaultAbbreviation": "Job",
         "inputFields": [
-          "Testament of Solomon",
-          "TstSol"
+          "Job",
+          "Jb"
         ]
       },
-      "TJB": {
-        "defaultName": "Testament of Job",
-        "defaultAbbreviation": "TstJob",
+      "PSA": {
+        "defaultName": "Psalmen",
+        "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Testament of Job",
-          "TstJob"
+          "Psalmen",
+          "Psa",
+          "Pslmn"
         ]
       },
-      "MAI": {
-        "defaultName": "Martyrdom and Ascension of Isaiah",
-        "defaultAbbreviation": "MAIs",
+      "PRO": {
+        "defaultName": "Spreuken",
+        "defaultAbbreviation": "Spr",
         "inputFields": [
-          "Martyrdom and Ascension of Isaiah",
-          "MAIs"
+          "Spreuken",
+          "Spr",
+          "Sprkn"
         ]
       },
-      "AEZ": {
-        "defaultName": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
-        "defaultAbbreviation": "ApocEze",
+      "ECC": {
+        "defaultName": "Prediker",
+        "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
-          "ApocEze"
+          "Prediker",
+          "Ecc",
+          "Pre",
+          "Prdkr"
         ]
       },
-      "EZT": {
-        "defaultName": "Ezekiel the Tragedian",
-        "defaultAbbreviation": "EzeTrg",
+      "SNG": {
+        "defaultName": "Hooglied",
+        "defaultAbbreviation": "Hoo",
         "inputFields": [
-          "Ezekiel the Tragedian",
-          "EzeTrg"
+          "Hooglied",
+          "Hoo",
+          "Hgld",
+          "Hoglied"
         ]
       },
-      "EUP": {
-        "defaultName": "Eupolemus",
-        "defaultAbbreviation": "Eup",
+      "ISA": {
+        "defaultName": "Jesaja",
+        "defaultAbbreviation": "Jes",
         "inputFields": [
-          "Eupolemus",
-          "Eup"
+          "Jesaja",
+          "Jes",
+          "Jsja"
         ]
       },
-      "PEU": {
-        "defaultName": "Pseudo of Eupolemus / Pseudo-Eupolemus",
-        "defaultAbbreviation": "PsdEup",
+      "JER": {
+        "defaultName": "Jeremia",
+        "defaultAbbreviation": "Jer",
         "inputFields": [
-          "Pseudo of Eupolemus / Pseudo-Eupolemus",
-          "PsdEup"
+          "Jeremia",
+          "Jer",
+          "Jrmia"
         ]
       },
-      "VAM": {
-        "defaultName": "Visions of Amram",
-        "defaultAbbreviation": "VisAm",
+      "LAM": {
+        "defaultName": "Klaagliederen",
+        "defaultAbbreviation": "Kla",
         "inputFields": [
-          "Visions of Amram",
-          "VisAm"
+          "Klaagliederen",
+          "Kla",
+          "Klagliederen",
+          "Klgldrn"
         ]
       },
-      "LAR": {
-        "defaultName": "Letter of Aristeas / Epistle of Aristeas",
-        "defaultAbbreviation": "LettAris",
+      "EZE": {
+        "defaultName": "Ezechiël",
+        "defaultAbbreviation": "Eze",
         "inputFields": [
-          "Letter of Aristeas / Epistle of Aristeas",
-          "LettAris"
+          "Ezechiël",
+          "Eze",
+          "Ezechiel",
+          "Ezchl"
         ]
       },
-      "ARI": {
-        "defaultName": "Aristeas the Exegete",
-        "defaultAbbreviation": "Aris",
+      "DAN": {
+        "defaultName": "Daniël",
+        "defaultAbbreviation": "Dan",
         "inputFields": [
-          "Aristeas the Exegete",
-          "Aris"
+          "Daniël",
+          "Dan",
+          "Daniel",
+          "Dnl"
         ]
       },
-      "ABL": {
-        "defaultName": "Aristobulus",
-        "defaultAbbreviation": "Aristb",
+      "HOS": {
+        "defaultName": "Hosea",
+        "defaultAbbreviation": "Hos",
         "inputFields": [
-          "Aristobulus",
-          "Aristb"
+          "Hosea",
+          "Hos",
+          "Hsea"
         ]
       },
-      "ART": {
-        "defaultName": "Artapanus",
-        "defaultAbbreviation": "Artap",
+      "JOL": {
+        "defaultName": "Joël",
+        "defaultAbbreviation": "Joël",
         "inputFields": [
-          "Artapanus",
-          "Artap"
+          "Joël",
+          "Joel",
+          "Jl"
         ]
       },
-      "CLM": {
-        "defaultName": "Cleodemus Malchus",
-        "defaultAbbreviation": "CleoMalch",
+      "AMO": {
+        "defaultName": "Amos",
+        "defaultAbbreviation": "Amos",
         "inputFields": [
-          "Cleodemus Malchus",
-          "CleoMalch"
+          "Amos",
+          "Ams"
         ]
       },
-      "ELM": {
-        "defaultName": "Eldad and Modad",
-        "defaultAbbreviation": "EldMod",
+      "OBA": {
+        "defaultName": "Obadja",
+        "defaultAbbreviation": "Obad",
         "inputFields": [
-          "Eldad and Modad",
-          "EldMod"
+          "Obadja",
+          "Obad",
+          "Obdja"
         ]
       },
-      "HRE": {
-        "defaultName": "History of the Rechabites",
-        "defaultAbbreviation": "HistRech",
+      "JNA": {
+        "defaultName": "Jona",
+        "defaultAbbreviation": "Jona",
         "inputFields": [
-          "History of the Rechabites",
-          "HistRech"
+          "Jona",
+          "Jna"
         ]
       },
-      "LPR": {
-        "defaultName": "Lives of the Prophets",
-        "defaultAbbreviation": "LivesProphs",
+      "MIC": {
+        "defaultName": "Micha",
+        "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Lives of the Prophets",
-          "LivesProphs"
+          "Micha",
+          "Mic",
+          "Mcha"
         ]
       },
-      "EPL": {
-        "defaultName": "Philo the Epic Poet",
-        "defaultAbbreviation": "Philo",
+      "NAH": {
+        "defaultName": "Nahum",
+        "defaultAbbreviation": "Nah",
         "inputFields": [
-          "Philo the Epic Poet",
-          "Philo"
+          "Nahum",
+          "Nah",
+          "Nahm",
+          "Nhum"
         ]
       },
-      "TEO": {
-        "defaultName": "Theodotus",
-        "defaultAbbreviation": "Theod",
+      "HAB": {
+        "defaultName": "Habakuk",
+        "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Theodotus",
-          "Theod"
+          "Habakuk",
+          "Hab",
+          "Hbakuk",
+          "Hbkk"
         ]
       },
-      "TSA": {
-        "defaultName": "Testament of Asher",
-        "defaultAbbreviation": "TstAsher",
+      "ZEP": {
+        "defaultName": "Zefanja",
+        "defaultAbbreviation": "Zef",
         "inputFields": [
-          "Testament of Asher",
-          "TstAsher"
+          "Zefanja",
+          "Zef",
+          "Zfanja",
+          "Zfnja"
         ]
       },
-      "TSB": {
-        "defaultName": "Testament of Benjamin",
-        "defaultAbbreviation": "TstBenj",
+      "HAG": {
+        "defaultName": "Haggaï",
+        "defaultAbbreviation": "Hag",
         "inputFields": [
-          "Testament of Benjamin",
-          "TstBenj"
+          "Haggaï",
+          "Hag",
+          "Haggai",
+          "Hagaï",
+          "Hagai",
+          "Hggaï",
+          "Hggai"
         ]
       },
-      "TSD": {
-        "defaultName": "Testament of Dan",
-        "defaultAbbreviation": "TstDan",
+      "ZEC": {
+        "defaultName": "Zacharia",
+        "defaultAbbreviation": "Zac",
         "inputFields": [
-          "Testament of Dan",
-          "TstDan"
+          "Zacharia",
+          "Zac",
+          "Zcharia",
+          "Zchria"
         ]
       },
-      "TSG": {
-        "defaultName": "Testament of Gad",
-        "defaultAbbreviation": "TstGad",
+      "MAL": {
+        "defaultName": "Maleachi",
+        "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Testament of Gad",
-          "TstGad"
+          "Maleachi",
+          "Mal",
+          "Malachi",
+          "Mleachi",
+          "Mlchi"
         ]
       },
-      "TSI": {
-        "defaultName": "Testament of Issachar",
-        "defaultAbbreviation": "TstIssa",
+      "MAT": {
+        "defaultName": "Mattheüs",
+        "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Testament of Issachar",
-          "TstIssa"
+          "Mattheüs",
+          "Mat",
+          "Mattheus",
+          "Mttheüs",
+          "Mttheus",
+          "Mtths"
         ]
       },
-      "TSJ": {
-        "defaultName": "Testament of Joseph",
-        "defaultAbbreviation": "TstJoseph",
+      "MRK": {
+        "defaultName": "Markus",
+        "defaultAbbreviation": "Mrk",
         "inputFields": [
-          "Testament of Joseph",
-          "TstJoseph"
+          "Markus",
+          "Mrk",
+          "Mrkus",
+          "Mrks"
         ]
       },
-      "TSY": {
-        "defaultName": "Testament of Judah",
-        "defaultAbbreviation": "TstJudah",
+      "LUK": {
+        "defaultName": "Lukas",
+        "defaultAbbreviation": "Luk",
         "inputFields": [
-          "Testament of Judah",
-          "TstJudah"
+          "Lukas",
+          "Luk",
+          "Lkas",
+          "Lks"
         ]
       },
-      "TSL": {
-        "defaultName": "Testament of Levi",
-        "defaultAbbreviation": "TstLevi",
+      "JHN": {
+        "defaultName": "Johannes",
+        "defaultAbbreviation": "Jhn",
         "inputFields": [
-          "Testament of Levi",
-          "TstLevi"
+          "Johannes",
+          "Jhn",
+          "Johanes",
+          "Jhannes",
+          "Jhnnes"
         ]
       },
-      "TSN": {
-        "defaultName": "Testament of Naphtali",
-        "defaultAbbreviation": "TstNaph",
+      "ACT": {
+        "defaultName": "Handelingen",
+        "defaultAbbreviation": "Hand",
         "inputFields": [
-          "Testament of Naphtali",
-          "TstNaph"
+          "Handelingen",
+          "Hand",
+          "Hndelingen",
+          "Hndlingen",
+          "Hndlngn"
         ]
       },
-      "TSR": {
-        "defaultName": "Testament of Reuben",
-        "defaultAbbreviation": "TstReub",
+      "ROM": {
+        "defaultName": "Romeinen",
+        "defaultAbbreviation": "Rom",
         "inputFields": [
-          "Testament of Reuben",
-          "TstReub"
+          "Romeinen",
+          "Rom",
+          "Rmeinen",
+          "Rmnn"
         ]
       },
-      "TSS": {
-        "defaultName": "Testament of Simeon",
-        "defaultAbbreviation": "TstSimeon",
+      "CO1": {
+        "defaultName": "1 Korinthe",
+        "defaultAbbreviation": "1 Kor",
         "inputFields": [
-          "Testament of Simeon",
-          "TstSimeon"
+          "1 Korinthe",
+          "1 Kor",
+          "1 Krnthe"
         ]
       },
-      "TSZ": {
-        "defaultName": "Testament of Zebulun",
-        "defaultAbbreviation": "TstZeb",
+      "CO2": {
+        "defaultName": "2 Korinthe",
+        "defaultAbbreviation": "2 Kor",
         "inputFields": [
-          "Testament of Zebulun",
-          "TstZeb"
+          "2 Korinthe",
+          "2 Kor",
+          "2 Krnthe"
         ]
       },
-      "JJW": {
-        "defaultName": "Josephus Jewish War VI",
-        "defaultAbbreviation": "JosJewWarVI",
+      "GAL": {
+        "defaultName": "Galaten",
+        "defaultAbbreviation": "Gal",
         "inputFields": [
-          "Josephus Jewish War VI",
-          "JosJewWarVI"
+          "Galaten",
+          "Gal",
+          "Glaten",
+          "Gltn"
         ]
       },
-      "SHM": {
-        "defaultName": "Shepherd of Hermas Mandates",
-        "defaultAbbreviation": "ShepHerMand",
+      "EPH": {
+        "defaultName": "Efeze",
+        "defaultAbbreviation": "Efe",
         "inputFields": [
-          "Shepherd of Hermas Mandates",
-          "ShepHerMand"
+          "Efeze",
+          "Efe",
+          "Efze"
         ]
       },
-      "SHS": {
-        "defaultName": "Shepherd of Hermas Similitudes",
-        "defaultAbbreviation": "ShepHerSim",
+      "PHP": {
+        "defaultName": "Filippenzen",
+        "defaultAbbreviation": "Fil",
         "inputFields": [
-          "Shepherd of Hermas Similitudes",
-          "ShepHerSim"
+          "Filippenzen",
+          "Fil",
+          "Flippenzen",
+          "Flppnzn",
+          "Filipenzen",
+          "Flipenzen",
+          "Flpnzn"
         ]
       },
-      "SHV": {
-        "defaultName": "Shepherd of Hermas Visions",
-        "defaultAbbreviation": "ShepHerVis",
+      "COL": {
+        "defaultName": "Kolossenzen",
+        "defaultAbbreviation": "Kol",
         "inputFields": [
-          "Shepherd of Hermas Visions",
-          "ShepHerVis"
+          "Kolossenzen",
+          "Kol",
+          "Klossenzen",
+          "Klssenzen",
+          "Klssnzn",
+          "Kolosenzen",
+          "Klosenzen",
+          "Klsnzn"
         ]
       },
-      "IGE": {
-        "defaultName": "Ignatius to the Ephesians",
-        "defaultAbbreviation": "IgnEph",
+      "TH1": {
+        "defaultName": "1 Thessalonicenzen",
+        "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "Ignatius to the Ephesians",
-          "IgnEph"
+          "1 Thessalonicenzen",
+          "1 Thess",
+          "1 Thssalonicenzen",
+          "1 Thsslncnzn",
+          "1 Thesalonicenzen",
+          "1 Thsalonicenzen",
+          "1 Thslncnzn"
         ]
       },
-      "IGM": {
-        "defaultName": "Ignatius to the Magnesians",
-        "defaultAbbreviation": "IgnMagn",
+      "TH2": {
+        "defaultName": "2 Thessalonicenzen",
+        "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "Ignatius to the Magnesians",
-          "IgnMagn"
+          "2 Thessalonicenzen",
+          "2 Thess",
+          "2 Thssalonicenzen",
+          "2 Thsslncnzn",
+          "2 Thesalonicenzen",
+          "2 Thsalonicenzen",
+          "2 Thslncnzn"
         ]
       },
-      "IGT": {
-        "defaultName": "Ignatius to the Trallians",
-        "defaultAbbreviation": "IgnTrall",
+      "TI1": {
+        "defaultName": "1 Timotheüs",
+        "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "Ignatius to the Trallians",
-          "IgnTrall"
+          "1 Timotheüs",
+          "1 Tim",
+          "1 Timotheus",
+          "1 Tmths"
         ]
       },
-      "IGR": {
-        "defaultName": "Ignatius to the Romans",
-        "defaultAbbreviation": "IgnRom",
+      "TI2": {
+        "defaultName": "2 Timotheüs",
+        "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "Ignatius to the Romans",
-          "IgnRom"
+          "2 Timotheüs",
+          "2 Tim",
+          "2 Timotheus",
+          "2 Tmths"
         ]
       },
-      "IGP": {
-        "defaultName": "Ignatius to the Philadelphians",
-        "defaultAbbreviation": "IgnPhp",
+      "TIT": {
+        "defaultName": "Titus",
+        "defaultAbbreviation": "Tit",
         "inputFields": [
-          "Ignatius to the Philadelphians",
-          "IgnPhp"
+          "Titus",
+          "Tit",
+          "Ttus",
+          "Tts"
         ]
       },
-      "IGS": {
-        "defaultName": "Ignatius to the Smyrnaeans",
-        "defaultAbbreviation": "IgnSmyrn",
+      "PHM": {
+        "defaultName": "Filemon",
+        "defaultAbbreviation": "Fil",
         "inputFields": [
-          "Ignatius to the Smyrnaeans",
-          "IgnSmyrn"
+          "Filemon",
+          "Fil",
+          "Flemon",
+          "Flmn"
         ]
       },
-      "IGC": {
-        "defaultName": "Ignatius to Polycarp",
-        "defaultAbbreviation": "IgnPolyc",
+      "HEB": {
+        "defaultName": "Hebreeën",
+        "defaultAbbreviation": "Heb",
         "inputFields": [
-          "Ignatius to Polycarp",
-          "IgnPolyc"
+          "Hebreeën",
+          "Heb",
+          "Hebreeen",
+          "Hebreën",
+          "Hebreen",
+          "Hbrn"
         ]
       },
-      "PCP": {
-        "defaultName": "Polycarp to the Philippians",
-        "defaultAbbreviation": "PolycPhp",
-        "inputFields": [
-          "Polycarp to the Philippians",
-          "PolycPhp"
+      "JAM": {
+        "defaultName": "Jakobus",
+        "defaultAbbreviation": "Jak",
+        "inputFields": [
+          "Jakobus",
+          "Jak",
+          "Jkobus",
+          "Jkbus",
+          "Jkbs"
         ]
       },
-      "MPC": {
-        "defaultName": "Martydom of Polycarp",
-        "defaultAbbreviation": "MartyrPolyc",
+      "PE1": {
+        "defaultName": "1 Petrus",
+        "defaultAbbreviation": "1 Pet",
         "inputFields": [
-          "Martydom of Polycarp",
-          "MartyrPolyc"
+          "1 Petrus",
+          "1 Pet",
+          "1 Ptrus",
+          "1 Ptrs"
         ]
       },
-      "DIO": {
-        "defaultName": "Diognetus",
-        "defaultAbbreviation": "Diogn",
+      "PE2": {
+        "defaultName": "2 Petrus",
+        "defaultAbbreviation": "2 Pet",
         "inputFields": [
-          "Diognetus",
-          "Diogn"
+          "2 Petrus",
+          "2 Pet",
+          "2 Ptrus",
+          "2 Ptrs"
         ]
       },
-      "APC": {
-        "defaultName": "Apostles' Creed",
-        "defaultAbbreviation": "AposCreed",
+      "JN1": {
+        "defaultName": "1 Johannes",
+        "defaultAbbreviation": "1 Jhn",
         "inputFields": [
-          "Apostles' Creed",
-          "AposCreed"
+          "1 Johannes",
+          "1 Jhn",
+          "1 Johanes",
+          "1 Jhnns"
         ]
       },
-      "FOP": {
-        "defaultName": "Fragments of Papias",
-        "defaultAbbreviation": "FragPapias",
+      "JN2": {
+        "defaultName": "2 Johannes",
+        "defaultAbbreviation": "2 Jhn",
         "inputFields": [
-          "Fragments of Papias",
-          "FragPapias"
+          "2 Johannes",
+          "2 Jhn",
+          "2 Johanes",
+          "2 Jhnns"
         ]
       },
-      "ROE": {
-        "defaultName": "Reliques of the Elders",
-        "defaultAbbreviation": "RelicsElders",
+      "JN3": {
+        "defaultName": "3 Johannes",
+        "defaultAbbreviation": "3 Jhn",
         "inputFields": [
-          "Reliques of the Elders",
-          "RelicsElders"
+          "3 Johannes",
+          "3 Jhn",
+          "3 Johanes",
+          "3 Jhnns"
         ]
       },
-      "FOQ": {
-        "defaultName": "Fragment of Quadratus",
-        "defaultAbbreviation": "FragQuadr",
+      "JDE": {
+        "defaultName": "Judas",
+        "defaultAbbreviation": "Jud",
         "inputFields": [
-          "Fragment of Quadratus",
-          "FragQuadr"
+          "Judas",
+          "Jud",
+          "Jdas",
+          "Jds"
         ]
       },
-      "TAT": {
-        "defaultName": "Tatian / Tatian's Diatessaron / Diatessaron",
-        "defaultAbbreviation": "Tatian",
+      "REV": {
+        "defaultName": "Openbaring",
+        "defaultAbbreviation": "Opn",
         "inputFields": [
-          "Tatian / Tatian's Diatessaron / Diatessaron",
-          "Tatian"
+          "Openbaring",
+          "Opn",
+          "Opnbaring",
+          "Opnbrng"
         ]
       },
-      "PRF": {
-        "defaultName": "Preface",
-        "defaultAbbreviation": "Prf",
+      "BAR": {
+        "defaultName": "Baruch",
+        "defaultAbbreviation": "Bar",
         "inputFields": [
-          "Preface",
-          "Prf",
-          "Pre"
+          "Baruch",
+          "Bar",
+          "Brch"
         ]
       },
-      "ACK": {
-        "defaultName": "Acknowledgements",
-        "defaultAbbreviation": "Ack",
+      "DNG": {
+        "defaultName": "Daniel (Greek)",
+        "defaultAbbreviation": "Dn(Gk)",
         "inputFields": [
-          "Acknowledgements",
-          "Ack"
+          "Daniel (Greek)",
+          "Dn(Gk)",
+          "DnlGk"
         ]
       },
-      "INT": {
-        "defaultName": "Introduction",
-        "defaultAbbreviation": "Intr",
+      "PAZ": {
+        "defaultName": "Prayer of Azariah",
+        "defaultAbbreviation": "PrAz",
         "inputFields": [
-          "Introduction",
-          "Intr"
+          "Prayer of Azariah",
+          "PrAz",
+          "Pryr Azrh"
         ]
       },
-      "FRT": {
-        "defaultName": "Front Matter",
-        "defaultAbbreviation": "FrtMatter",
+      "BEL": {
+        "defaultName": "Bel and the Dragon",
+        "defaultAbbreviation": "Bel",
         "inputFields": [
-          "Front Matter",
-          "FrtMatter",
-          "FM"
+          "Bel and the Dragon",
+          "Bel",
+          "BaD"
         ]
       },
-      "TOC": {
-        "defaultName": "Table of Contents",
-        "defaultAbbreviation": "ToC",
+      "SUS": {
+        "defaultName": "Susanna",
+        "defaultAbbreviation": "Sus",
         "inputFields": [
-          "Table of Contents",
-          "ToC"
+          "Susanna",
+          "Sus",
+          "Ssnn"
         ]
       },
-      "BAK": {
-        "defaultName": "Back Matter",
-        "defaultAbbreviation": "Back",
+      "GES": {
+        "defaultName": "1 Esdras",
+        "defaultAbbreviation": "1 Esd",
         "inputFields": [
-          "Back Matter",
-          "Back",
-          "Bck"
+          "1 Esdras",
+          "1 Esd",
+          "1 Esdrs"
         ]
       },
-      "GLS": {
-        "defaultName": "Glossary",
-        "defaultAbbreviation": "Gloss",
+      "LES": {
+        "defaultName": "2 Esdras",
+        "defaultAbbreviation": "2 Esd",
         "inputFields": [
-          "Glossary",
-          "Gloss",
-          "Gls"
+          "2 Esdras",
+          "2 Esd",
+          "2 Esdrs"
         ]
       },
-      "CNC": {
-        "defaultName": "Concordance",
-        "defaultAbbreviation": "Concord",
+      "ESG": {
+        "defaultName": "Esther (Greek)",
+        "defaultAbbreviation": "EsGk",
         "inputFields": [
-          "Concordance",
-          "Concord",
-          "Ccd"
+          "Esther (Greek)",
+          "EsGk",
+          "EstGk"
         ]
       },
-      "TPC": {
-        "defaultName": "Topical Concordance",
-        "defaultAbbreviation": "TopicConcord",
+      "LJE": {
+        "defaultName": "Epistle of Jeremiah",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "Topical Concordance",
-          "TopicConcord",
-          "TpclCcd"
+          "Epistle of Jeremiah",
+          "EpJer",
+          "Ep Jeremiah",
+          "Ep Jrm",
+          "Ltr Jeremiah",
+          "Ltr Jrm"
         ]
       },
-      "MAP": {
-        "defaultName": "Maps",
-        "defaultAbbreviation": "Maps",
+      "JDT": {
+        "defaultName": "Judith",
+        "defaultAbbreviation": "Jdt",
         "inputFields": [
-          "Maps",
-          "Mps"
+          "Judith",
+          "Jdt",
+          "Jdth"
         ]
       },
-      "IXN": {
-        "defaultName": "Names Index",
-        "defaultAbbreviation": "NameIdx",
+      "MAN": {
+        "defaultName": "Prayer of Manasses",
+        "defaultAbbreviation": "Man",
         "inputFields": [
-          "Names Index",
-          "NameIdx",
-          "IdxNames"
+          "Prayer of Manasses",
+          "Man",
+          "Manasses",
+          "Manasseh",
+          "Mnss",
+          "Mnsh",
+          "Pryr Man"
         ]
       },
-      "IXP": {
-        "defaultName": "Places Index",
-        "defaultAbbreviation": "PlaceIdx",
+      "SIR": {
+        "defaultName": "Sirach",
+        "defaultAbbreviation": "Sir",
         "inputFields": [
-          "Places Index",
-          "PlaceIdx",
-          "IdxPlaces"
+          "Sirach",
+          "Sir",
+          "Srch"
         ]
       },
-      "IXT": {
-        "defaultName": "Thematic Index",
-        "defaultAbbreviation": "ThemeIdx",
+      "TOB": {
+        "defaultName": "Tobit",
+        "defaultAbbreviation": "Tob",
         "inputFields": [
-          "Thematic Index",
-          "ThemeIdx",
-          "IdxThemes"
+          "Tobit",
+          "Tob",
+          "Tobias",
+          "Tbt",
+          "Tbs"
         ]
       },
-      "XXA": {
-        "defaultName": "Extra Book A",
-        "defaultAbbreviation": "ExtraA",
+      "WIS": {
+        "defaultName": "Wisdom of Solomon",
+        "defaultAbbreviation": "Wis",
         "inputFields": [
-          "Extra Book A",
-          "ExtraA"
+          "Wisdom of Solomon",
+          "Wis",
+          "Wsdm of Slmn"
         ]
       },
-      "XXB": {
-        "defaultName": "Extra Book B",
-        "defaultAbbreviation": "ExtraB",
+      "MA1": {
+        "defaultName": "1 Maccabees",
+        "defaultAbbreviation": "1 Mac",
         "inputFields": [
-          "Extra Book B",
-          "ExtraB"
+          "1 Maccabees",
+          "1 Mac",
+          "1 Mccbs",
+          "1 Mcbs"
         ]
       },
-      "XXC": {
-        "defaultName": "Extra Book C",
-        "defaultAbbreviation": "ExtraC",
+      "MA2": {
+        "defaultName": "2 Maccabees",
+        "defaultAbbreviation": "2 Mac",
         "inputFields": [
-          "Extra Book C",
-          "ExtraC"
+          "2 Maccabees",
+          "2 Mac",
+          "2 Mccbs",
+          "2 Mcbs"
         ]
       },
-      "XXD": {
-        "defaultName": "Extra Book D",
-        "defaultAbbreviation": "ExtraD",
+      "MA3": {
+        "defaultName": "3 Maccabees",
+        "defaultAbbreviation": "3 Mac",
         "inputFields": [
-          "Extra Book D",
-          "ExtraD"
+          "3 Maccabees",
+          "3 Mac",
+          "3 Mccbs",
+          "3 Mcbs"
         ]
       },
-      "XXE": {
-        "defaultName": "Extra Book E",
-        "defaultAbbreviation": "ExtraE",
+      "MA4": {
+        "defaultName": "4 Maccabees",
+        "defaultAbbreviation": "4 Mac",
         "inputFields": [
-          "Extra Book E",
-          "ExtraE"
+          "4 Maccabees",
+          "4 Mac",
+          "4 Mccbs",
+          "4 Mcbs"
         ]
       },
-      "XXF": {
-        "defaultName": "Extra Book F",
-        "defaultAbbreviation": "ExtraF",
+      "MA5": {
+        "defaultName": "5 Maccabees",
+        "defaultAbbreviation": "5 Mac",
         "inputFields": [
-          "Extra Book F",
-          "ExtraF"
+          "5 Maccabees",
+          "5 Mac",
+          "5 Mccbs",
+          "5 Mcbs"
         ]
       },
-      "XXG": {
-        "defaultName": "Extra Book G",
-        "defaultAbbreviation": "ExtraG",
-        "inputFields": [
-          "Extra Book G",
-          "ExtraG"
-        ]
-      }
-    }
-  ],
-  "mbt": [
-    {
-      "OT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU",
-          "JOS",
-          "JDG",
-          "RUT",
-          "SA1",
-          "SA2",
-          "KI1",
-          "KI2",
-          "CH1",
-          "CH2",
-          "EZR",
-          "NEH",
-          "EST",
-          "JOB",
-          "PSA",
-          "PRO",
-          "ECC",
-          "SNG",
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Daan ne Kasabutan",
-        "defaultAbbreviation": "DnK",
+      "PSB": {
+        "defaultName": "Psalms B",
+        "defaultAbbreviation": "LitPs",
         "inputFields": [
-          "Daan ne Kasabutan",
-          "DnK",
-          "Daan Kasabutan",
-          "Tapey ne Kasabutan",
-          "Daan ne Tugon"
+          "Psalms B",
+          "LitPs",
+          "Metrical Psalms",
+          "Mtrca Pslms",
+          "Alternative Psalms",
+          "Alt Psalms",
+          "Alt Pslms",
+          "Lit Psalms",
+          "Lit Pslms"
         ]
       },
-      "NT": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN",
-          "ACT",
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB",
-          "JAM",
-          "PE1",
-          "PE2",
-          "JN1",
-          "JN2",
-          "JN3",
-          "JDE",
-          "REV"
-        ],
-        "defaultName": "Iyam ne Kasabutan",
-        "defaultAbbreviation": "InK",
+      "PS2": {
+        "defaultName": "Psalm 151",
+        "defaultAbbreviation": "Ps151",
         "inputFields": [
-          "Iyam ne Kasabutan",
-          "InK",
-          "Iyam Kasabutan",
-          "Bag-u ne Kasabutan",
-          "Bag-o ne Tugon"
+          "Psalm 151",
+          "Ps151",
+          "Pslm 151"
         ]
-      }
-    },
-    {
-      "1 ": [
-        "I ",
-        "Hun-an ne ",
-        "An-anayan ne ",
-        "1st ",
-        "Saa ",
-        "Sabekan "
-      ],
-      "2 ": [
-        "II ",
-        "Igkarangeb ne ",
-        "Scnd ",
-        "2nd ",
-        "Duwa ",
-        "Daruwan "
-      ],
-      "3 ": [
-        "III ",
-        "Igkatelu ne ",
-        "Thrd ",
-        "3rd ",
-        "Telu ",
-        "Tatelun "
-      ],
-      "Saint ": [
-        "Santu ",
-        "Santo ",
-        "St ",
-        "Snt. ",
-        "St. "
-      ]
-    },
-    {
-      "GEN": {
-        "defaultName": "Hinisis",
-        "defaultAbbreviation": "Hin",
+      },
+      "PS3": {
+        "defaultName": "Syriac Psalms",
+        "defaultAbbreviation": "SyrPs",
         "inputFields": [
-          "Hinisis",
-          "Hin",
-          "Hinesis",
-          "Henesis",
-          "Henisis",
-          "Hn"
+          "Syriac Psalms",
+          "SyrPs",
+          "Syr Pslms"
         ]
       },
-      "EXO": {
-        "defaultName": "Iksudu",
-        "defaultAbbreviation": "Iks",
+      "PSS": {
+        "defaultName": "Psalms of Solomon",
+        "defaultAbbreviation": "AddPs",
         "inputFields": [
-          "Iksudu",
-          "Iks",
-          "Eksudu",
-          "Iksd"
+          "Psalms of Solomon",
+          "AddPs",
+          "Ps Sol",
+          "Slmn Pslms"
         ]
       },
-      "LEV": {
-        "defaultName": "Libitiku",
-        "defaultAbbreviation": "Lib",
-        "inputFields": [
-          "Libitiku",
-          "Lib",
-          "Lebitiku",
-          "Lebetiku",
-          "Lebeteku",
-          "Lebiteku",
-          "Lbtk"
+      "LAO": {
+        "defaultName": "Laodiceans",
+        "defaultAbbreviation": "Lao",
+        "inputFields": [
+          "Laodiceans",
+          "Lao",
+          "Eps Lao",
+          "Ltr Lao"
         ]
       },
-      "NUM": {
-        "defaultName": "Numiru",
-        "defaultAbbreviation": "Num",
+      "ODE": {
+        "defaultName": "Odes",
+        "defaultAbbreviation": "Ode",
         "inputFields": [
-          "Numiru",
-          "Num",
-          "Nmr"
+          "Odes",
+          "Ode",
+          "Odae"
         ]
       },
-      "DEU": {
-        "defaultName": "Diyuturunumiyu",
-        "defaultAbbreviation": "Diy",
+      "PSO": {
+        "defaultName": "Prayer of Solomon",
+        "defaultAbbreviation": "PrSol",
         "inputFields": [
-          "Diyuturunumiyu",
-          "Diy",
-          "Deyuturunumiyu",
-          "Dytrnmy"
+          "Prayer of Solomon",
+          "PrSol",
+          "Pryr Slm"
         ]
       },
-      "JOS": {
-        "defaultName": "Huswi",
-        "defaultAbbreviation": "Huswi",
+      "PJE": {
+        "defaultName": "Prayer of Jeremiah",
+        "defaultAbbreviation": "PrJer",
         "inputFields": [
-          "Huswi",
-          "Hswi",
-          "Huswe",
-          "Juswi"
+          "Prayer of Jeremiah",
+          "PrJer",
+          "Pryr Jeremiah"
         ]
       },
-      "JDG": {
-        "defaultName": "Me Talewukum",
-        "defaultAbbreviation": "Tal",
+      "WSI": {
+        "defaultName": "Words of Sirach",
+        "defaultAbbreviation": "WrdsSir",
         "inputFields": [
-          "Me Talewukum",
-          "Tal",
-          "Tlwkm",
-          "Me Talawukum",
-          "Talawukum",
-          "Talaukum"
+          "Words of Sirach",
+          "WrdsSir",
+          "Wrds Sirach",
+          "Wrds Srch"
         ]
       },
-      "RUT": {
-        "defaultName": "Rut",
-        "defaultAbbreviation": "Rut",
+      "COP": {
+        "defaultName": "Epistle of Corinthians to Paul",
+        "defaultAbbreviation": "EpCor",
         "inputFields": [
-          "Rut",
-          "Rt"
+          "Epistle of Corinthians to Paul",
+          "EpCor",
+          "Ep Corinthians",
+          "Ep Crnthns",
+          "Ltr Corinthians",
+          "Ltr Crnthns"
         ]
       },
-      "SA1": {
-        "defaultName": "1 Samwil",
-        "defaultAbbreviation": "1 Sam",
+      "CO3": {
+        "defaultName": "3 Corinthians",
+        "defaultAbbreviation": "3 Cor",
         "inputFields": [
-          "1 Samwil",
-          "1 Sam",
-          "1 Smwl",
-          "1 Samwel"
+          "3 Corinthians",
+          "3 Cor",
+          "3 Crnthns"
         ]
       },
-      "SA2": {
-        "defaultName": "2 Samwil",
-        "defaultAbbreviation": "2 Sam",
+      "EUT": {
+        "defaultName": "Prayer of Euthalius",
+        "defaultAbbreviation": "Eut",
         "inputFields": [
-          "2 Samwil",
-          "2 Sam",
-          "2 Smwl",
-          "2 Samwel"
+          "Prayer of Euthalius",
+          "Eut",
+          "Pr Eut"
         ]
       },
-      "KI1": {
-        "defaultName": "1 Hari",
-        "defaultAbbreviation": "1 Hari",
+      "DOJ": {
+        "defaultName": "Dormition of John",
+        "defaultAbbreviation": "DoJ",
         "inputFields": [
-          "1 Hari",
-          "1 Me Hari",
-          "1 Hri"
+          "Dormition of John",
+          "DoJ",
+          "Drm Jhn",
+          "Drm Jn"
         ]
       },
-      "KI2": {
-        "defaultName": "2 Hari",
-        "defaultAbbreviation": "2 Hari",
+      "TTP": {
+        "defaultName": "Testaments of the Twelve Patriarchs",
+        "defaultAbbreviation": "Tst12",
         "inputFields": [
-          "2 Hari",
-          "2 Me Hari",
-          "2 Hri"
+          "Testaments of the Twelve Patriarchs",
+          "Tst12",
+          "Tst 12P",
+          "Tst Twelve"
         ]
       },
-      "CH1": {
-        "defaultName": "1 Krunikas",
-        "defaultAbbreviation": "1 Kru",
+      "JUB": {
+        "defaultName": "Jubilees",
+        "defaultAbbreviation": "Jub",
         "inputFields": [
-          "1 Krunikas",
-          "1 Kru",
-          "1 Krnks"
+          "Jubilees",
+          "Jub",
+          "Jbls"
         ]
       },
-      "CH2": {
-        "defaultName": "2 Krunikas",
-        "defaultAbbreviation": "2 Kru",
+      "ENO": {
+        "defaultName": "Enoch",
+        "defaultAbbreviation": "Eno",
         "inputFields": [
-          "2 Krunikas",
-          "2 Kru",
-          "2 Krnks"
+          "Enoch",
+          "Eno",
+          "Ench",
+          "1 Enoch",
+          "1 Ench"
         ]
       },
-      "EZR": {
-        "defaultName": "Isra",
-        "defaultAbbreviation": "Isr",
+      "EN2": {
+        "defaultName": "2 Enoch",
+        "defaultAbbreviation": "2 Eno",
         "inputFields": [
-          "Isra",
-          "Isr",
-          "Isdras",
-          "Isdrs",
-          "Esdras",
-          "Esdrs"
+          "2 Enoch",
+          "2 Eno",
+          "2 Ench"
         ]
       },
-      "NEH": {
-        "defaultName": "Nihimiyas",
-        "defaultAbbreviation": "Nih",
+      "EZA": {
+        "defaultName": "Apocalypse of Ezra",
+        "defaultAbbreviation": "ApEz",
         "inputFields": [
-          "Nihimiyas",
-          "Nih",
-          "Nhmys",
-          "Nehimiyas",
-          "Nehemiyas",
-          "Nehemeyas",
-          "Nehimeyas"
+          "Apocalypse of Ezra",
+          "ApEz",
+          "Ap Ezra"
         ]
       },
-      "EST": {
-        "defaultName": "Istir",
-        "defaultAbbreviation": "Ist",
+      "EZ5": {
+        "defaultName": "5 Ezra",
+        "defaultAbbreviation": "5 Ezr",
         "inputFields": [
-          "Istir",
-          "Ist",
-          "Estir",
-          "Istr"
+          "5 Ezra",
+          "5 Ezr",
+          "5 Esdras"
         ]
       },
-      "JOB": {
-        "defaultName": "Hub",
-        "defaultAbbreviation": "Hub",
+      "EZ6": {
+        "defaultName": "6 Ezra",
+        "defaultAbbreviation": "6 Ezr",
         "inputFields": [
-          "Hub",
-          "Hb",
-          "Jub"
+          "6 Ezra",
+          "6 Ezr",
+          "6 Esdras"
         ]
       },
-      "PSA": {
-        "defaultName": "Me Salmu",
-        "defaultAbbreviation": "Sal",
+      "REP": {
+        "defaultName": "Reproof",
+        "defaultAbbreviation": "Rep",
         "inputFields": [
-          "Me Salmu",
-          "Sal",
-          "Slmu"
+          "Reproof",
+          "Rep",
+          "Rprf"
         ]
       },
-      "PRO": {
-        "defaultName": "Lalahen",
-        "defaultAbbreviation": "Lal",
+      "MQ1": {
+        "defaultName": "1 Meqabyan",
+        "defaultAbbreviation": "1 Meq",
         "inputFields": [
-          "Lalahen",
-          "Lal",
-          "Me Lalahen",
-          "Lalahon",
-          "Llhn"
+          "1 Meqabyan",
+          "1 Meq",
+          "1 Mqbyn",
+          "1 Makabian",
+          "1 Mkbn",
+          "Mekabis of Benjamin",
+          "Mekabis Benjamin",
+          "Mkbs Bnjmn"
         ]
       },
-      "ECC": {
-        "defaultName": "Iklisyastis",
-        "defaultAbbreviation": "Ikl",
+      "MQ2": {
+        "defaultName": "2 Meqabyan",
+        "defaultAbbreviation": "2 Meq",
         "inputFields": [
-          "Iklisyastis",
-          "Ikl",
-          "Iklisiyastis",
-          "Eklisyastis",
-          "Eklesyastis",
-          "Iklsysts"
+          "2 Meqabyan",
+          "2 Meq",
+          "2 Mqbyn",
+          "2 Makabian",
+          "2 Mkbn",
+          "Mekabis of Moab",
+          "Mekabis Moab",
+          "Mkbs Mb"
         ]
       },
-      "SNG": {
-        "defaultName": "Ulahingen ni Sulumun",
-        "defaultAbbreviation": "UNS",
+      "MQ3": {
+        "defaultName": "3 Meqabyan",
+        "defaultAbbreviation": "3 Meq",
         "inputFields": [
-          "Ulahingen ni Sulumun",
-          "UNS",
-          "Ulahingen ni Slmn",
-          "Ulahengen ni Slmn"
+          "3 Meqabyan",
+          "3 Meq",
+          "3 Mqbyn",
+          "3 Makabian",
+          "3 Mkbn"
         ]
       },
-      "ISA": {
-        "defaultName": "Isayas",
-        "defaultAbbreviation": "Isa",
+      "BA2": {
+        "defaultName": "2 Baruch",
+        "defaultAbbreviation": "2 Bar",
         "inputFields": [
-          "Isayas",
-          "Isa",
-          "Esayas",
-          "Isys"
+          "2 Baruch",
+          "2 Bar",
+          "2 Brch",
+          "Apocalypse of Baruch",
+          "Apoc of Baruch",
+          "Apoc Baruch"
         ]
       },
-      "JER": {
-        "defaultName": "Hirimiyas",
-        "defaultAbbreviation": "Hir",
+      "BA3": {
+        "defaultName": "3 Baruch",
+        "defaultAbbreviation": "3 Bar",
         "inputFields": [
-          "Hirimiyas",
-          "Hir",
-          "Hirmiyas",
-          "Herimiyas",
-          "Hiremiyas",
-          "Hrmys"
+          "3 Baruch",
+          "3 Bar",
+          "3 Brch"
         ]
       },
-      "LAM": {
-        "defaultName": "Pegkalange ni Hirimiyas",
-        "defaultAbbreviation": "Peg",
+      "BA4": {
+        "defaultName": "4 Baruch",
+        "defaultAbbreviation": "4 Bar",
         "inputFields": [
-          "Pegkalange ni Hirimiyas",
-          "Peg",
-          "Pigkalange",
-          "Pogkalange",
-          "Pgklange"
+          "4 Baruch",
+          "4 Bar",
+          "4 Brch",
+          "Paralipomenon of Jeremiah",
+          "Prlp of Jrmh",
+          "Rest of Words of Baruch"
         ]
       },
-      "EZE": {
-        "defaultName": "Isikil",
-        "defaultAbbreviation": "Isi",
+      "LBA": {
+        "defaultName": "Epistle of Baruch",
+        "defaultAbbreviation": "EpBar",
         "inputFields": [
-          "Isikil",
-          "Isi",
-          "Isikyil",
-          "Isekil",
-          "Esikil",
-          "Iskl"
+          "Epistle of Baruch",
+          "EpBar",
+          "Ep Baruch",
+          "Ep Brch",
+          "Epi Baruch",
+          "Epis Baruch",
+          "Letter of Baruch",
+          "Ltr of Baruch",
+          "Ltr Baruch"
         ]
       },
-      "DAN": {
-        "defaultName": "Danyil",
-        "defaultAbbreviation": "Dan",
+      "LJB": {
+        "defaultName": "Epistle of Jeremiah (with Baruch)",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "Danyil",
-          "Dan",
-          "Danil",
-          "Dnyl"
+          "Epistle of Jeremiah (with Baruch)",
+          "EpJer",
+          "Ep Jer"
         ]
       },
-      "HOS": {
-        "defaultName": "Husiyas",
-        "defaultAbbreviation": "Hus",
+      "CL1": {
+        "defaultName": "1 Clement",
+        "defaultAbbreviation": "1 Cle",
         "inputFields": [
-          "Husiyas",
-          "Hus",
-          "Husiya",
-          "Hosiyas",
-          "Huseyas",
-          "Hsya"
+          "1 Clement",
+          "1 Cle",
+          "1 Clmnt"
         ]
       },
-      "JOL": {
-        "defaultName": "Huwil",
-        "defaultAbbreviation": "Huwil",
+      "CL2": {
+        "defaultName": "2 Clement",
+        "defaultAbbreviation": "2 Cle",
         "inputFields": [
-          "Huwil",
-          "Howil",
-          "Huwl",
-          "Hwl"
+          "2 Clement",
+          "2 Cle",
+          "2 Clmnt"
         ]
       },
-      "AMO": {
-        "defaultName": "Amus",
-        "defaultAbbreviation": "Amu",
+      "SHE": {
+        "defaultName": "Shepherd of Hermas",
+        "defaultAbbreviation": "Her",
         "inputFields": [
-          "Amus",
-          "Amu",
-          "Amos",
-          "Ams"
+          "Shepherd of Hermas",
+          "Her",
+          "Hermas",
+          "Hrms",
+          "Shep Hermas"
         ]
       },
-      "OBA": {
-        "defaultName": "Ubadiya",
-        "defaultAbbreviation": "Ubd",
+      "DID": {
+        "defaultName": "Didache",
+        "defaultAbbreviation": "Did",
         "inputFields": [
-          "Ubadiya",
-          "Ubd",
-          "Ubadiyas",
-          "Obadiyas",
-          "Ubdiyas",
-          "Abdiyas",
-          "Abdy"
+          "Didache",
+          "Did",
+          "Ddch"
         ]
       },
-      "JNA": {
-        "defaultName": "Hunas",
-        "defaultAbbreviation": "Hun",
+      "MOS": {
+        "defaultName": "Moses",
+        "defaultAbbreviation": "Mos",
         "inputFields": [
-          "Hunas",
-          "Hun",
-          "Junas",
-          "Juns"
+          "Moses",
+          "Mos",
+          "Mss"
         ]
       },
-      "MIC": {
-        "defaultName": "Mikiyas",
-        "defaultAbbreviation": "Mic",
+      "SAM": {
+        "defaultName": "Samuel",
+        "defaultAbbreviation": "Sam",
         "inputFields": [
-          "Mikiyas",
-          "Mic",
-          "Mikyas",
-          "Miciyas",
-          "Miceyas",
-          "Meciyas",
-          "Mkys"
+          "Samuel",
+          "Sam",
+          "Sml"
         ]
       },
-      "NAH": {
-        "defaultName": "Nahum",
-        "defaultAbbreviation": "Nah",
+      "KGS": {
+        "defaultName": "Kings",
+        "defaultAbbreviation": "Kgs",
         "inputFields": [
-          "Nahum",
-          "Nah",
-          "Nahm",
-          "Nahom",
-          "Nhum",
-          "Nhm"
+          "Kings",
+          "Kgs",
+          "Kngs"
         ]
       },
-      "HAB": {
-        "defaultName": "Habakuk",
-        "defaultAbbreviation": "Hab",
+      "CHR": {
+        "defaultName": "Chronicles",
+        "defaultAbbreviation": "Chr",
         "inputFields": [
-          "Habakuk",
-          "Hab",
-          "Hbkk",
-          "Habbakkuk",
-          "Habbakuk",
-          "Habakkuk",
-          "Habakok",
-          "Hbbkk"
+          "Chronicles",
+          "Chr",
+          "Chrncls"
         ]
       },
-      "ZEP": {
-        "defaultName": "Supuniyas",
-        "defaultAbbreviation": "Sup",
+      "EZN": {
+        "defaultName": "Ezra-Nehemiah",
+        "defaultAbbreviation": "EzNeh",
         "inputFields": [
-          "Supuniyas",
-          "Sup",
-          "Supunyas",
-          "Sopuniyas",
-          "Suponiyas",
-          "Spnys"
+          "Ezra-Nehemiah",
+          "EzNeh",
+          "Ezr Neh"
         ]
       },
-      "HAG": {
-        "defaultName": "Hagiyu",
-        "defaultAbbreviation": "Hag",
+      "P12": {
+        "defaultName": "Twelve Prophets",
+        "defaultAbbreviation": "TwProp",
         "inputFields": [
-          "Hagiyu",
-          "Hag",
-          "Hgy",
-          "Haggiyu",
-          "Hageyu",
-          "Hagiyo"
-        ]
-      },
-      "ZEC": {
-        "defaultName": "Sakariyas",
-        "defaultAbbreviation": "Sak",
-        "inputFields": [
-          "Sakariyas",
-          "Sak",
-          "Skrys",
-          "Sakkariyas",
-          "Sakareyas"
-        ]
-      },
-      "MAL": {
-        "defaultName": "Malakyas",
-        "defaultAbbreviation": "Mal",
-        "inputFields": [
-          "Malakyas",
-          "Mal",
-          "Mlkys",
-          "Malakiyas"
-        ]
-      },
-      "MAT": {
-        "defaultName": "Matiyu",
-        "defaultAbbreviation": "Mat",
-        "inputFields": [
-          "Matiyu",
-          "Mat",
-          "Mtyu",
-          "Matyu",
-          "Mattiyu",
-          "Mateyu"
-        ]
-      },
-      "MRK": {
-        "defaultName": "Markus",
-        "defaultAbbreviation": "Mar",
-        "inputFields": [
-          "Markus",
-          "Mar",
-          "Mrks",
-          "Mks",
-          "Marcus",
-          "Markos",
-          "Marcos",
-          "Malkus"
-        ]
-      },
-      "LUK": {
-        "defaultName": "Lukas",
-        "defaultAbbreviation": "Luk",
-        "inputFields": [
-          "Lukas",
-          "Luk",
-          "Lks",
-          "Lucas"
-        ]
-      },
-      "JHN": {
-        "defaultName": "Huwan",
-        "defaultAbbreviation": "Huw",
-        "inputFields": [
-          "Huwan",
-          "Huw",
-          "Hwn",
-          "Juwan",
-          "Juan",
-          "Jn"
-        ]
-      },
-      "ACT": {
-        "defaultName": "Me Himu",
-        "defaultAbbreviation": "Himu",
-        "inputFields": [
-          "Me Himu",
-          "Himu",
-          "Hmu",
-          "MeHimu"
-        ]
-      },
-      "ROM": {
-        "defaultName": "Matig-Ruma",
-        "defaultAbbreviation": "Rum",
-        "inputFields": [
-          "Matig-Ruma",
-          "Rum",
-          "MatigRuma",
-          "Ruma",
-          "Rma",
-          "Rumanh"
-        ]
-      },
-      "CO1": {
-        "defaultName": "1 Matig-Kurintu",
-        "defaultAbbreviation": "1 Kur",
-        "inputFields": [
-          "1 Matig-Kurintu",
-          "1 Kur",
-          "1 MatigKurintu",
-          "1 Matig-Korintu",
-          "1 MatigKorintu",
-          "1 Kurintu",
-          "1 Korintu",
-          "1 Kurentu",
-          "1 Krntu"
-        ]
-      },
-      "CO2": {
-        "defaultName": "2 Matig-Kurintu",
-        "defaultAbbreviation": "2 Kur",
-        "inputFields": [
-          "2 Matig-Kurintu",
-          "2 Kur",
-          "2 MatigKurintu",
-          "2 Matig-Korintu",
-          "2 MatigKorintu",
-          "2 Kurintu",
-          "2 Korintu",
-          "2 Kurentu",
-          "2 Krntu"
-        ]
-      },
-      "GAL": {
-        "defaultName": "Matig-Galasya",
-        "defaultAbbreviation": "Gal",
-        "inputFields": [
-          "Matig-Galasya",
-          "Gal",
-          "MatigGalasya",
-          "MatigGalasoya",
-          "Matig-Galasoya",
-          "Galasiya",
-          "Galasya",
-          "Glsya"
-        ]
-      },
-      "EPH": {
-        "defaultName": "Matig-Ipisu",
-        "defaultAbbreviation": "Ipi",
-        "inputFields": [
-          "Matig-Ipisu",
-          "Ipi",
-          "MatigIpisu",
-          "Matig-Episu",
-          "MatigEpisu",
-          "Ipisu",
-          "Ipsu"
-        ]
-      },
-      "PHP": {
-        "defaultName": "Matig-Pilipus",
-        "defaultAbbreviation": "Pil",
-        "inputFields": [
-          "Matig-Pilipus",
-          "Pil",
-          "MatigPilipus",
-          "Matig-Pelipus",
-          "MatigPelipus",
-          "Pilipus",
-          "Plpus"
-        ]
-      },
-      "COL": {
-        "defaultName": "Matig-Kulusas",
-        "defaultAbbreviation": "Kul",
-        "inputFields": [
-          "Matig-Kulusas",
-          "Kul",
-          "MatigKulusas",
-          "Matig-Kolusas",
-          "MatigKolusas",
-          "Kulusas",
-          "Klss"
-        ]
-      },
-      "TH1": {
-        "defaultName": "1 Matig-Tisalunika",
-        "defaultAbbreviation": "1 Tis",
-        "inputFields": [
-          "1 Matig-Tisalunika",
-          "1 Tis",
-          "1 MatigTisalunika",
-          "1 Matig-Tisalonika",
-          "1 MatigTisalonika",
-          "1 Tisalunika",
-          "1 Tslnka"
-        ]
-      },
-      "TH2": {
-        "defaultName": "2 Matig-Tisalunika",
-        "defaultAbbreviation": "2 Tis",
-        "inputFields": [
-          "2 Matig-Tisalunika",
-          "2 Tis",
-          "2 MatigTisalunika",
-          "2 Matig-Tisalonika",
-          "2 MatigTisalonika",
-          "2 Tisalunika",
-          "2 Tslnka"
-        ]
-      },
-      "TI1": {
-        "defaultName": "1 Timutiyu",
-        "defaultAbbreviation": "1 Tim",
-        "inputFields": [
-          "1 Timutiyu",
-          "1 Tim",
-          "1 Timityu",
-          "1 Tmtyu"
-        ]
-      },
-      "TI2": {
-        "defaultName": "2 Timutiyu",
-        "defaultAbbreviation": "2 Tim",
-        "inputFields": [
-          "2 Timutiyu",
-          "2 Tim",
-          "2 Timityu",
-          "2 Tmtyu"
-        ]
-      },
-      "TIT": {
-        "defaultName": "Titu",
-        "defaultAbbreviation": "Tit",
-        "inputFields": [
-          "Titu",
-          "Tit",
-          "Ttu",
-          "Tito"
-        ]
-      },
-      "PHM": {
-        "defaultName": "Pilimun",
-        "defaultAbbreviation": "Pilim",
-        "inputFields": [
-          "Pilimun",
-          "Pilim",
-          "Pelimun",
-          "Pilemun",
-          "Plmn"
-        ]
-      },
-      "HEB": {
-        "defaultName": "Hibruwanen",
-        "defaultAbbreviation": "Heb",
-        "inputFields": [
-          "Hibruwanen",
-          "Heb",
-          "Hibruhanen",
-          "Hibruhanun",
-          "Hibruwanon",
-          "Hebruwanen",
-          "Hbrws"
-        ]
-      },
-      "JAM": {
-        "defaultName": "Santiyagu",
-        "defaultAbbreviation": "San",
-        "inputFields": [
-          "Santiyagu",
-          "San",
-          "Sntygu",
-          "Hakubu",
-          "Hakobu",
-          "Santiyaggu",
-          "Sandiyagu",
-          "Sandiyaggu"
-        ]
-      },
-      "PE1": {
-        "defaultName": "1 Pidru",
-        "defaultAbbreviation": "1 Pid",
-        "inputFields": [
-          "1 Pidru",
-          "1 Pid",
-          "1 Pidro",
-          "1 Pedru",
-          "1 Pedro",
-          "1 Pdru"
-        ]
-      },
-      "PE2": {
-        "defaultName": "2 Pidru",
-        "defaultAbbreviation": "2 Pid",
-        "inputFields": [
-          "2 Pidru",
-          "2 Pid",
-          "2 Pidro",
-          "2 Pedru",
-          "2 Pedro",
-          "2 Pdru"
-        ]
-      },
-      "JN1": {
-        "defaultName": "1 Huwan",
-        "defaultAbbreviation": "1 Huw",
-        "inputFields": [
-          "1 Huwan",
-          "1 Huw",
-          "1 Hwn",
-          "1 Hn",
-          "1 Juan",
-          "1 Jn"
-        ]
-      },
-      "JN2": {
-        "defaultName": "2 Huwan",
-        "defaultAbbreviation": "2 Huw",
-        "inputFields": [
-          "2 Huwan",
-          "2 Huw",
-          "2 Hwn",
-          "2 Hn",
-          "2 Juan",
-          "2 Jn"
-        ]
-      },
-      "JN3": {
-        "defaultName": "3 Huwan",
-        "defaultAbbreviation": "3 Huw",
-        "inputFields": [
-          "3 Huwan",
-          "3 Huw",
-          "3 Hwn",
-          "3 Hn",
-          "3 Juan",
-          "3 Jn"
-        ]
-      },
-      "JDE": {
-        "defaultName": "Hudas",
-        "defaultAbbreviation": "Hud",
-        "inputFields": [
-          "Hudas",
-          "Hud",
-          "Hds",
-          "Huddas",
-          "Judas"
-        ]
-      },
-      "REV": {
-        "defaultName": "Impakita",
-        "defaultAbbreviation": "Imp",
-        "inputFields": [
-          "Impakita",
-          "Imp",
-          "Empakita",
-          "Impkta",
-          "Gipadayag"
+          "Twelve Prophets",
+          "TwProp",
+          "12 Prophets"
         ]
       }
     }
   ],
-  "por_traditional": [
+  "eng_deuterocanon": [
     {
       "OT": {
         "includedBooks": [
@@ -3257,13 +3130,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-POR-Ancien Testament",
-        "defaultAbbreviation": "XXX-POR-AT",
+        "defaultName": "Old Testament",
+        "defaultAbbreviation": "OT",
         "inputFields": [
-          "XXX-POR-Ancien Testament",
-          "XXX-POR-AT",
-          "XXX-POR-L'Ancien Testament",
-          "XXX-POR-L'Ancien Tstmnt"
+          "Old Testament",
+          "OT",
+          "Old Tstmnt"
         ]
       },
       "PT": {
@@ -3274,16 +3146,16 @@
           "NUM",
           "DEU"
         ],
-        "defaultName": "XXX-POR-Pentateuch",
-        "defaultAbbreviation": "XXX-POR-Pent",
+        "defaultName": "Pentateuch",
+        "defaultAbbreviation": "Pent",
         "inputFields": [
-          "XXX-POR-Pentateuch",
-          "XXX-POR-Pnttch",
-          "XXX-POR-Torah",
-          "XXX-POR-Trh",
-          "XXX-POR-Moses' books",
-          "XXX-POR-Books of Moses",
-          "XXX-POR-Bks of Moses"
+          "Pentateuch",
+          "Pnttch",
+          "Torah",
+          "Trh",
+          "Moses' books",
+          "Books of Moses",
+          "Bks of Moses"
         ]
       },
       "MJ": {
@@ -3295,12 +3167,12 @@
           "DAN",
           "BAR"
         ],
-        "defaultName": "XXX-POR-Major Prophets",
-        "defaultAbbreviation": "XXX-POR-MajProps",
+        "defaultName": "Major Prophets",
+        "defaultAbbreviation": "MajProps",
         "inputFields": [
-          "XXX-POR-Major Prophets",
-          "XXX-POR-MajProps",
-          "XXX-POR-Mjr Prphts"
+          "Major Prophets",
+          "MajProps",
+          "Mjr Prphts"
         ]
       },
       "MN": {
@@ -3318,12 +3190,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-POR-Minor Prophets",
-        "defaultAbbreviation": "XXX-POR-MinProp",
+        "defaultName": "Minor Prophets",
+        "defaultAbbreviation": "MinProp",
         "inputFields": [
-          "XXX-POR-Minor Prophets",
-          "XXX-POR-MinProp",
-          "XXX-POR-Mnr Prphts"
+          "Minor Prophets",
+          "MinProp",
+          "Mnr Prphts"
         ]
       },
       "NT": {
@@ -3356,13 +3228,12 @@
           "JDE",
           "REV"
         ],
-        "defaultName": "XXX-POR-Nouveau Testament",
-        "defaultAbbreviation": "XXX-POR-NT",
+        "defaultName": "New Testament",
+        "defaultAbbreviation": "NT",
         "inputFields": [
-          "XXX-POR-Nouveau Testament",
-          "XXX-POR-NT",
-          "XXX-POR-Le Nouveau Testament",
-          "XXX-POR-Nv Tstmnt"
+          "New Testament",
+          "NT",
+          "Nw Tstmnt"
         ]
       },
       "GO": {
@@ -3372,11 +3243,11 @@
           "LUK",
           "JHN"
         ],
-        "defaultName": "XXX-POR-Gospels",
-        "defaultAbbreviation": "XXX-POR-Gosp",
+        "defaultName": "Gospels",
+        "defaultAbbreviation": "Gosp",
         "inputFields": [
-          "XXX-POR-Gospels",
-          "XXX-POR-Gspls"
+          "Gospels",
+          "Gspls"
         ]
       },
       "PL": {
@@ -3396,162 +3267,178 @@
           "PHM",
           "HEB"
         ],
-        "defaultName": "XXX-POR-Pauline Epistles",
-        "defaultAbbreviation": "XXX-POR-EpPaul",
+        "defaultName": "Pauline Epistles",
+        "defaultAbbreviation": "EpPaul",
         "inputFields": [
-          "XXX-POR-Pauline Epistles",
-          "XXX-POR-EpPaul",
-          "XXX-POR-Paul's epistles",
-          "XXX-POR-Epistles of Paul",
-          "XXX-POR-Ep of Paul",
-          "XXX-POR-Letters of Paul",
-          "XXX-POR-Ltrs of Paul",
-          "XXX-POR-Paul's letters",
-          "XXX-POR-Paul's ltrs"
+          "Pauline Epistles",
+          "EpPaul",
+          "Paul's epistles",
+          "Epistles of Paul",
+          "Ep of Paul",
+          "Letters of Paul",
+          "Ltrs of Paul",
+          "Paul's letters",
+          "Paul's ltrs"
+        ]
+      },
+      "DC": {
+        "includedBooks": [
+          "TOB",
+          "JDT",
+          "ESG",
+          "WIS",
+          "SIR",
+          "LJE",
+          "PAZ",
+          "SUS",
+          "BEL",
+          "MA1",
+          "MA2",
+          "GES",
+          "LES",
+          "MAN"
+        ],
+        "defaultName": "Deuterocanon",
+        "defaultAbbreviation": "DC",
+        "inputFields": [
+          "Deuterocanon",
+          "DC",
+          "DtrCnn",
+          "Apocrypha",
+          "Apcrypha"
         ]
       }
     },
     {
       "1 ": [
         "I ",
-        "XXX-POR-Premi\u00e8re ",
-        "XXX-POR-Premiere ",
-        "XXX-POR-Prmre ",
+        "First ",
+        "Frst ",
         "1st ",
         "One "
       ],
       "2 ": [
         "II ",
-        "XXX-POR-Seconde ",
-        "XXX-POR-Scnde ",
+        "Second ",
+        "Scnd ",
         "2nd ",
         "Two "
       ],
       "3 ": [
         "III ",
-        "XXX-POR-Troisi\u00e8me ",
-        "XXX-POR-Troisieme ",
-        "XXX-POR-Trsme ",
+        "Third ",
+        "Thrd ",
         "3rd ",
         "Three "
       ],
       "4 ": [
         "IV ",
-        "XXX-POR-Quatri\u00e8me ",
-        "XXX-POR-Quatrieme ",
-        "XXX-POR-Qutrme ",
-        "XXX-POR-Qtrme ",
+        "Fourth ",
+        "Forth ",
+        "Frth ",
         "4th ",
         "Four "
       ],
       "5 ": [
         "V ",
-        "XXX-POR-Cinqui\u00e8me ",
-        "XXX-POR-Cinquieme ",
-        "XXX-POR-Cnqme ",
+        "Fifth ",
+        "Ffth ",
         "5th ",
         "Five "
       ],
       "6 ": [
         "VI ",
-        "XXX-POR-Sixth ",
-        "XXX-POR-Sxth ",
+        "Sixth ",
+        "Sxth ",
         "6th ",
         "Six "
       ],
       "Saint ": [
-        "XXX-POR-Snt ",
-        "XXX-POR-St ",
-        "XXX-POR-Snt. ",
+        "Snt ",
+        "St ",
+        "Snt. ",
         "St. "
       ]
     },
     {
       "GEN": {
-        "defaultName": "G\u00eanesis",
+        "defaultName": "Genesis",
         "defaultAbbreviation": "Gen",
         "inputFields": [
-          "G\u00eanesis",
+          "Genesis",
           "Gen",
-          "Genese",
-          "Gns",
+          "Gnss",
           "1 Moses",
           "1 Mss"
         ]
       },
       "EXO": {
-        "defaultName": "\u00caxodo",
+        "defaultName": "Exodus",
         "defaultAbbreviation": "Exo",
         "inputFields": [
-          "\u00caxodo",
+          "Exodus",
           "Exo",
-          "Exde",
-          "L'Exode",
-          "L'Exde",
+          "Exds",
           "2 Moses",
           "2 Mss"
         ]
       },
       "LEV": {
-        "defaultName": "Lev\u00edtico",
+        "defaultName": "Leviticus",
         "defaultAbbreviation": "Lev",
         "inputFields": [
-          "Lev\u00edtico",
+          "Leviticus",
           "Lev",
-          "Levitique",
-          "Lvtque",
+          "Lvtcs",
           "3 Moses",
           "3 Mss"
         ]
       },
       "NUM": {
-        "defaultName": "N\u00fameros",
-        "defaultAbbreviation": "Nom",
+        "defaultName": "Numbers",
+        "defaultAbbreviation": "Num",
         "inputFields": [
-          "N\u00fameros",
-          "Nom",
+          "Numbers",
+          "Num",
           "Nmbrs",
           "4 Moses",
           "4 Mss"
         ]
       },
       "DEU": {
-        "defaultName": "Deuteron\u00f4mio",
+        "defaultName": "Deuteronomy",
         "defaultAbbreviation": "Deu",
         "inputFields": [
-          "Deuteron\u00f4mio",
+          "Deuteronomy",
           "Deu",
-          "Deuteronome",
-          "Dtrnme",
+          "Dtrnmy",
           "5 Moses",
           "5 Mss"
         ]
       },
       "JOS": {
-        "defaultName": "Josu\u00e9",
-        "defaultAbbreviation": "Jos",
+        "defaultName": "Joshua",
+        "defaultAbbreviation": "Josh",
         "inputFields": [
-          "Josu\u00e9",
-          "Jos",
-          "Josue",
-          "Jsue"
+          "Joshua",
+          "Josh",
+          "Jsh"
         ]
       },
       "JDG": {
-        "defaultName": "Ju\u00edzes",
-        "defaultAbbreviation": "Jug",
+        "defaultName": "Judges",
+        "defaultAbbreviation": "Jdg",
         "inputFields": [
-          "Ju\u00edzes",
-          "Jug",
-          "Jges",
-          "Jgs"
+          "Judges",
+          "Jdg",
+          "Jdgs"
         ]
       },
       "RUT": {
-        "defaultName": "Rute",
+        "defaultName": "Ruth",
         "defaultAbbreviation": "Rut",
         "inputFields": [
-          "Rute",
+          "Ruth",
           "Rut",
           "Rth"
         ]
@@ -3562,7 +3449,8 @@
         "inputFields": [
           "1 Samuel",
           "1 Sam",
-          "1 Sml"
+          "1 Sml",
+          "1 Sl"
         ]
       },
       "SA2": {
@@ -3571,172 +3459,168 @@
         "inputFields": [
           "2 Samuel",
           "2 Sam",
-          "2 Sml"
+          "2 Sml",
+          "2 Sl"
         ]
       },
       "KI1": {
-        "defaultName": "1 Reis",
-        "defaultAbbreviation": "1 Rs",
+        "defaultName": "1 Kings",
+        "defaultAbbreviation": "1 Kgs",
         "inputFields": [
-          "1 Reis",
-          "1 Rs"
+          "1 Kings",
+          "1 Kgs",
+          "1 Kngs",
+          "1 Ks"
         ]
       },
       "KI2": {
-        "defaultName": "2 Reis",
-        "defaultAbbreviation": "2 Rs",
+        "defaultName": "2 Kings",
+        "defaultAbbreviation": "2 Kgs",
         "inputFields": [
-          "2 Reis",
-          "2 Rs"
+          "2 Kings",
+          "2 Kgs",
+          "2 Kngs",
+          "2 Ks"
         ]
       },
       "CH1": {
-        "defaultName": "1 Cr\u00f4nicas",
+        "defaultName": "1 Chronicles",
         "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "1 Cr\u00f4nicas",
+          "1 Chronicles",
           "1 Chr",
-          "1 Chrnqs",
-          "1 Croniqs",
-          "1 Crnq"
+          "1 Chrnc",
+          "1 Cronic",
+          "1 Crnc"
         ]
       },
       "CH2": {
-        "defaultName": "2 Cr\u00f4nicas",
+        "defaultName": "2 Chronicles",
         "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "2 Cr\u00f4nicas",
+          "2 Chronicles",
           "2 Chr",
-          "2 Chrnqs",
-          "2 Croniqs",
-          "2 Crnq"
+          "2 Chrnc",
+          "2 Cronic",
+          "2 Crnc"
         ]
       },
       "EZR": {
-        "defaultName": "Esdras",
-        "defaultAbbreviation": "Esd",
+        "defaultName": "Ezra",
+        "defaultAbbreviation": "Ezr",
         "inputFields": [
-          "Esdras",
-          "Esd",
-          "Esdrs"
+          "Ezra",
+          "Ezr"
         ]
       },
       "NEH": {
-        "defaultName": "Neemias",
+        "defaultName": "Nehemiah",
         "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Neemias",
+          "Nehemiah",
           "Neh",
-          "Nhmie",
-          "Neh\u00e9mie",
-          "N\u00e9hemie",
-          "Nehemie"
+          "Nhmh"
         ]
       },
       "EST": {
-        "defaultName": "Ester",
+        "defaultName": "Esther",
         "defaultAbbreviation": "Est",
         "inputFields": [
-          "Ester",
-          "Est",
           "Esther",
+          "Est",
+          "Esthr",
           "Estr"
         ]
       },
       "JOB": {
-        "defaultName": "J\u00f3",
+        "defaultName": "Job",
         "defaultAbbreviation": "Job",
         "inputFields": [
-          "J\u00f3",
           "Job",
           "Jb"
         ]
       },
       "PSA": {
-        "defaultName": "Salmos",
+        "defaultName": "Psalms",
         "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Salmos",
+          "Psalms",
           "Psa",
-          "Psms"
+          "Pslms"
         ]
       },
       "PRO": {
-        "defaultName": "Prov\u00e9rbios",
+        "defaultName": "Proverbs",
         "defaultAbbreviation": "Pro",
         "inputFields": [
-          "Prov\u00e9rbios",
+          "Proverbs",
           "Pro",
           "Prvrbs",
           "Prvbs"
         ]
       },
       "ECC": {
-        "defaultName": "Eclesiastes",
+        "defaultName": "Ecclesiastes",
         "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Eclesiastes",
+          "Ecclesiastes",
           "Ecc",
-          "Ecclesiaste",
-          "L'Eccl\u00e9siaste",
-          "L'Ecclesiaste",
-          "Ecclst"
+          "Ecclsts",
+          "Qoheleth",
+          "Qhlth"
         ]
       },
       "SNG": {
-        "defaultName": "C\u00e2nticos",
-        "defaultAbbreviation": "Cnt",
+        "defaultName": "Song of Solomon",
+        "defaultAbbreviation": "Sng",
         "inputFields": [
-          "C\u00e2nticos",
-          "Cnt",
-          "Cantique des Cantiques",
-          "Cnt de Slmn",
-          "CdS",
-          "CS"
+          "Song of Solomon",
+          "Sng",
+          "Sng of Slmn",
+          "Song of Songs",
+          "Sng of Sngs",
+          "SoS",
+          "SS",
+          "Canticle of Canticles",
+          "Cntcl of Cntcl",
+          "CoC",
+          "CC"
         ]
       },
       "ISA": {
-        "defaultName": "Isa\u00edas",
-        "defaultAbbreviation": "\u00c9sa",
+        "defaultName": "Isaiah",
+        "defaultAbbreviation": "Isa",
         "inputFields": [
-          "Isa\u00edas",
-          "\u00c9sa",
-          "Esa\u00efe",
-          "Esaie"
+          "Isaiah",
+          "Isa"
         ]
       },
       "JER": {
-        "defaultName": "Jeremias",
-        "defaultAbbreviation": "J\u00e9r",
+        "defaultName": "Jeremiah",
+        "defaultAbbreviation": "Jer",
         "inputFields": [
-          "Jeremias",
-          "J\u00e9r",
-          "Jeremie",
-          "Jer\u00e9mie",
-          "J\u00e9remie",
-          "Jrm"
+          "Jeremiah",
+          "Jer",
+          "Jrmh"
         ]
       },
       "LAM": {
-        "defaultName": "Lamenta\u00e7\u00f5es",
+        "defaultName": "Lamentations",
         "defaultAbbreviation": "Lam",
         "inputFields": [
-          "Lamenta\u00e7\u00f5es",
+          "Lamentations",
           "Lam",
-          "Lmnts"
+          "Lmnts",
+          "Lamentations of Jeremiah"
         ]
       },
       "EZE": {
-        "defaultName": "Ezequiel",
-        "defaultAbbreviation": "\u00c9z\u00e9",
+        "defaultName": "Ezekiel",
+        "defaultAbbreviation": "Eze",
         "inputFields": [
-          "Ezequiel",
-          "\u00c9z\u00e9",
-          "Ezechiel",
-          "Ez\u00e9chiel",
-          "\u00c9zechiel",
-          "\u00c9zchl",
-          "Ezchl"
+          "Ezekiel",
+          "Eze",
+          "Ezkl"
         ]
       },
       "DAN": {
@@ -3749,13 +3633,12 @@
         ]
       },
       "HOS": {
-        "defaultName": "Os\u00e9ias",
-        "defaultAbbreviation": "Os\u00e8",
+        "defaultName": "Hosea",
+        "defaultAbbreviation": "Hos",
         "inputFields": [
-          "Os\u00e9ias",
-          "Os\u00e8",
-          "Os\u00e9e",
-          "Osee"
+          "Hosea",
+          "Hos",
+          "Hs"
         ]
       },
       "JOL": {
@@ -3767,386 +3650,387 @@
         ]
       },
       "AMO": {
-        "defaultName": "Am\u00f3s",
+        "defaultName": "Amos",
         "defaultAbbreviation": "Amos",
         "inputFields": [
-          "Am\u00f3s",
           "Amos",
           "Ams"
         ]
       },
       "OBA": {
-        "defaultName": "Obadias",
-        "defaultAbbreviation": "Abd",
+        "defaultName": "Obadiah",
+        "defaultAbbreviation": "Oba",
         "inputFields": [
-          "Obadias",
-          "Abd",
-          "Abds"
+          "Obadiah",
+          "Oba",
+          "Obdh"
         ]
       },
       "JNA": {
-        "defaultName": "Jonas",
+        "defaultName": "Jonah",
         "defaultAbbreviation": "Jon",
         "inputFields": [
-          "Jonas",
+          "Jonah",
           "Jon",
-          "Jns"
+          "Jnh"
         ]
       },
       "MIC": {
-        "defaultName": "Miqu\u00e9ias",
+        "defaultName": "Micah",
         "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Miqu\u00e9ias",
+          "Micah",
           "Mic",
-          "Michee",
-          "Mch\u00e9e",
-          "Mchee"
+          "Mcah",
+          "Mich",
+          "Mch"
         ]
       },
       "NAH": {
-        "defaultName": "Naum",
+        "defaultName": "Nahum",
         "defaultAbbreviation": "Nah",
         "inputFields": [
-          "Naum",
+          "Nahum",
           "Nah",
           "Nahm",
-          "Nhum"
+          "Nhum",
+          "Nhm"
         ]
       },
       "HAB": {
-        "defaultName": "Habacuque",
+        "defaultName": "Habakkuk",
         "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Habacuque",
+          "Habakkuk",
           "Hab",
+          "Hbkk",
+          "Habbakkuk",
+          "Habbakuk",
           "Habakuk",
-          "Hbcc"
+          "Hbbkk"
         ]
       },
       "ZEP": {
-        "defaultName": "Sofonias",
-        "defaultAbbreviation": "Sop",
+        "defaultName": "Zephaniah",
+        "defaultAbbreviation": "Zep",
         "inputFields": [
-          "Sofonias",
-          "Sop",
-          "Sphnie"
+          "Zephaniah",
+          "Zep",
+          "Zphnh",
+          "Zefaniah",
+          "Zfnh"
         ]
       },
       "HAG": {
-        "defaultName": "Ageu",
-        "defaultAbbreviation": "Agg",
+        "defaultName": "Haggai",
+        "defaultAbbreviation": "Hag",
         "inputFields": [
-          "Ageu",
-          "Agg",
-          "Aggee",
-          "Ag\u00e9e",
-          "Agee"
+          "Haggai",
+          "Hag",
+          "Hgg",
+          "Hagai"
         ]
       },
       "ZEC": {
-        "defaultName": "Zacarias",
-        "defaultAbbreviation": "Zac",
+        "defaultName": "Zechariah",
+        "defaultAbbreviation": "Zec",
         "inputFields": [
-          "Zacarias",
-          "Zac",
-          "Zchrie"
+          "Zechariah",
+          "Zec",
+          "Zchrh"
         ]
       },
       "MAL": {
-        "defaultName": "Malaquias",
+        "defaultName": "Malachi",
         "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Malaquias",
+          "Malachi",
           "Mal",
-          "Mlchie"
+          "Mlchi"
         ]
       },
       "MAT": {
-        "defaultName": "Mateus",
+        "defaultName": "Matthew",
         "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Mateus",
+          "Matthew",
           "Mat",
-          "Mtth",
-          "Mth",
-          "Saint Matthieu",
-          "Saint Mtth",
-          "Saint Mth"
+          "Mtthw",
+          "Mthw",
+          "Mtw",
+          "Mw",
+          "Saint Matthew",
+          "Saint Mtthw",
+          "Saint Mthw",
+          "Saint Mtw",
+          "Saint Mw"
         ]
       },
       "MRK": {
-        "defaultName": "Marcos",
-        "defaultAbbreviation": "Mrc",
+        "defaultName": "Mark",
+        "defaultAbbreviation": "Mrk",
         "inputFields": [
-          "Marcos",
-          "Mrc",
+          "Mark",
           "Mrk",
-          "Mrcs",
-          "Mc",
-          "Saint Marc",
-          "Saint Mrc",
-          "Saint Mc"
+          "Mk",
+          "Saint Mark",
+          "Saint Mrk",
+          "Saint Mk"
         ]
       },
       "LUK": {
-        "defaultName": "Lucas",
-        "defaultAbbreviation": "Luc",
+        "defaultName": "Luke",
+        "defaultAbbreviation": "Luk",
         "inputFields": [
-          "Lucas",
-          "Luc",
-          "Lc",
-          "Saint Luc",
-          "Saint Lc"
+          "Luke",
+          "Luk",
+          "Lke",
+          "Saint Luke",
+          "Saint Lk"
         ]
       },
       "JHN": {
-        "defaultName": "Jo\u00e3o",
-        "defaultAbbreviation": "Jn",
+        "defaultName": "John",
+        "defaultAbbreviation": "Jhn",
         "inputFields": [
-          "Jo\u00e3o",
+          "John",
+          "Jhn",
           "Jn",
-          "Saint Jean",
+          "Saint John",
+          "Saint Jhn",
           "Saint Jn"
         ]
       },
       "ACT": {
-        "defaultName": "Atos dos Ap\u00f3stolos",
+        "defaultName": "Acts",
         "defaultAbbreviation": "Act",
         "inputFields": [
-          "Atos dos Ap\u00f3stolos",
+          "Acts",
           "Act",
-          "Acts"
+          "Ats",
+          "Acts of the Apostles"
         ]
       },
       "ROM": {
-        "defaultName": "Romanos",
+        "defaultName": "Romans",
         "defaultAbbreviation": "Rom",
         "inputFields": [
-          "Romanos",
+          "Romans",
           "Rom",
           "Rmns"
         ]
       },
       "CO1": {
-        "defaultName": "1 Cor\u00edntios",
+        "defaultName": "1 Corinthians",
         "defaultAbbreviation": "1 Cor",
         "inputFields": [
-          "1 Cor\u00edntios",
+          "1 Corinthians",
           "1 Cor",
           "1 Crnthns"
         ]
       },
       "CO2": {
-        "defaultName": "2 Cor\u00edntios",
+        "defaultName": "2 Corinthians",
         "defaultAbbreviation": "2 Cor",
         "inputFields": [
-          "2 Cor\u00edntios",
+          "2 Corinthians",
           "2 Cor",
           "2 Crnthns"
         ]
       },
       "GAL": {
-        "defaultName": "G\u00e1latas",
+        "defaultName": "Galatians",
         "defaultAbbreviation": "Gal",
         "inputFields": [
-          "G\u00e1latas",
+          "Galatians",
           "Gal",
-          "Glts"
+          "Gltns"
         ]
       },
       "EPH": {
-        "defaultName": "Ef\u00e9sios",
-        "defaultAbbreviation": "\u00c9ph",
+        "defaultName": "Ephesians",
+        "defaultAbbreviation": "Eph",
         "inputFields": [
-          "Ef\u00e9sios",
-          "\u00c9ph",
-          "Eph\u00e9siens",
-          "\u00c9phesiens",
-          "Ephesiens",
-          "\u00c9phsns",
-          "Ephsns"
+          "Ephesians",
+          "Eph",
+          "Ephsns",
+          "Efsns"
         ]
       },
       "PHP": {
-        "defaultName": "Filipenses",
+        "defaultName": "Philippians",
         "defaultAbbreviation": "Php",
         "inputFields": [
-          "Filipenses",
+          "Philippians",
           "Php",
           "Phlppns",
           "Phlpns",
-          "Phillipiens",
-          "Philipiens",
-          "Phillippiens"
+          "Phillippians",
+          "Phillipians",
+          "Philipians",
+          "Flppns",
+          "Flpns"
         ]
       },
       "COL": {
-        "defaultName": "Colossenses",
+        "defaultName": "Colossians",
         "defaultAbbreviation": "Col",
         "inputFields": [
-          "Colossenses",
+          "Colossians",
           "Col",
           "Clssns",
           "Clsns",
           "Cllssns",
-          "Collosiens",
-          "Collossiens",
-          "Colosiens"
+          "Collosians",
+          "Collossians",
+          "Colosians"
         ]
       },
       "TH1": {
-        "defaultName": "1 Tessalonicenses",
+        "defaultName": "1 Thessalonians",
         "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "1 Tessalonicenses",
+          "1 Thessalonians",
           "1 Thess",
-          "1 Thsslncns",
+          "1 Thsslns",
           "1 Thslns",
-          "1 Thesalloniciens",
-          "1 Thessalloniciens",
-          "1 Thesaloniciens"
+          "1 Thesallonians",
+          "1 Thessallonians",
+          "1 Thesalonians"
         ]
       },
       "TH2": {
-        "defaultName": "2 Tessalonicenses",
+        "defaultName": "2 Thessalonians",
         "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "2 Tessalonicenses",
+          "2 Thessalonians",
           "2 Thess",
-          "2 Thsslncns",
+          "2 Thsslns",
           "2 Thslns",
-          "2 Thesalloniciens",
-          "2 Thessalloniciens",
-          "2 Thesaloniciens"
+          "2 Thesallonians",
+          "2 Thessallonians",
+          "2 Thesalonians"
         ]
       },
       "TI1": {
-        "defaultName": "1 Tim\u00f3teo",
+        "defaultName": "1 Timothy",
         "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "1 Tim\u00f3teo",
+          "1 Timothy",
           "1 Tim",
-          "1 Tmth",
-          "1 Timothee"
+          "1 Tmthy"
         ]
       },
       "TI2": {
-        "defaultName": "2 Tim\u00f3teo",
+        "defaultName": "2 Timothy",
         "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "2 Tim\u00f3teo",
+          "2 Timothy",
           "2 Tim",
-          "2 Tmth",
-          "2 Timothee"
+          "2 Tmthy"
         ]
       },
       "TIT": {
-        "defaultName": "Tito",
+        "defaultName": "Titus",
         "defaultAbbreviation": "Tit",
         "inputFields": [
-          "Tito",
+          "Titus",
           "Tit",
-          "Tte"
+          "Tts"
         ]
       },
       "PHM": {
-        "defaultName": "Filemom",
+        "defaultName": "Philemon",
         "defaultAbbreviation": "Phm",
         "inputFields": [
-          "Filemom",
+          "Philemon",
           "Phm",
           "Phlmn",
-          "Philemon"
+          "Flmn"
         ]
       },
       "HEB": {
-        "defaultName": "Hebreus",
+        "defaultName": "Hebrews",
         "defaultAbbreviation": "Heb",
         "inputFields": [
-          "Hebreus",
+          "Hebrews",
           "Heb",
-          "Hbrx",
-          "Hebreux"
+          "Hbrws"
         ]
       },
       "JAM": {
-        "defaultName": "Tiago",
-        "defaultAbbreviation": "Jac",
+        "defaultName": "James",
+        "defaultAbbreviation": "Jam",
         "inputFields": [
-          "Tiago",
-          "Jac",
-          "Jcqs",
-          "Saint Jacques",
-          "Saint Jcqs"
+          "James",
+          "Jam",
+          "Jms",
+          "Jmes",
+          "Jas"
         ]
       },
       "PE1": {
-        "defaultName": "1 Pedro",
-        "defaultAbbreviation": "1 Pie",
+        "defaultName": "1 Peter",
+        "defaultAbbreviation": "1 Pet",
         "inputFields": [
-          "1 Pedro",
-          "1 Pie",
-          "1 Prre",
-          "1 Saint Pierre",
-          "1 Saint Prre"
+          "1 Peter",
+          "1 Pet",
+          "1 Ptr"
         ]
       },
       "PE2": {
-        "defaultName": "1 Pedro",
-        "defaultAbbreviation": "2 Pie",
+        "defaultName": "2 Peter",
+        "defaultAbbreviation": "2 Pet",
         "inputFields": [
-          "1 Pedro",
-          "2 Pie",
-          "2 Prre",
-          "2 Saint Pierre",
-          "2 Saint Prre"
+          "2 Peter",
+          "2 Pet",
+          "2 Ptr"
         ]
       },
       "JN1": {
-        "defaultName": "1 Jo\u00e3o",
+        "defaultName": "1 John",
         "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "1 Jo\u00e3o",
+          "1 John",
           "1 Jn",
-          "1 Jo"
+          "1 Jhn"
         ]
       },
       "JN2": {
-        "defaultName": "2 Jo\u00e3o",
+        "defaultName": "2 John",
         "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "2 Jo\u00e3o",
+          "2 John",
           "2 Jn",
-          "2 Jo"
+          "2 Jhn"
         ]
       },
       "JN3": {
-        "defaultName": "3 Jo\u00e3o",
+        "defaultName": "3 John",
         "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "3 Jo\u00e3o",
+          "3 John",
           "3 Jn",
-          "3 Jo"
+          "3 Jhn"
         ]
       },
       "JDE": {
-        "defaultName": "Judas",
+        "defaultName": "Jude",
         "defaultAbbreviation": "Jud",
         "inputFields": [
-          "Judas",
+          "Jude",
           "Jud",
           "Jde"
         ]
       },
       "REV": {
-        "defaultName": "Apocalipse",
-        "defaultAbbreviation": "Apo",
+        "defaultName": "Revelation",
+        "defaultAbbreviation": "Rev",
         "inputFields": [
-          "Apocalipse",
-          "Apo",
-          "Apclypse",
-          "Apclpse"
+          "Revelation",
+          "Rev",
+          "Rvltn",
+          "Rvln"
         ]
       },
       "BAR": {
@@ -4173,7 +4057,8 @@
         "inputFields": [
           "Prayer of Azariah",
           "PrAz",
-          "Pryr Azrh"
+          "Pryr Azrh",
+          "Azariah"
         ]
       },
       "BEL": {
@@ -4195,12 +4080,14 @@
         ]
       },
       "GES": {
-        "defaultName": "1 Esdras",
-        "defaultAbbreviation": "1 Esd",
+        "defaultName": "Greek Esdras",
+        "defaultAbbreviation": "GrkEsd",
         "inputFields": [
+          "Greek Esdras",
+          "GrkEsd",
+          "Gk Esdras",
           "1 Esdras",
-          "1 Esd",
-          "1 Esdrs"
+          "2 Ezra"
         ]
       },
       "LES": {
@@ -4673,63 +4560,124 @@
           "Ddch"
         ]
       },
-      "MOS": {
-        "defaultName": "Moses",
-        "defaultAbbreviation": "Mos",
+      "PRF": {
+        "defaultName": "Preface",
+        "defaultAbbreviation": "Prf",
         "inputFields": [
-          "Moses",
-          "Mos",
-          "Mss"
+          "Preface",
+          "Prf",
+          "Pre"
         ]
       },
-      "SAM": {
-        "defaultName": "Samuel",
-        "defaultAbbreviation": "Sam",
+      "ACK": {
+        "defaultName": "Acknowledgements",
+        "defaultAbbreviation": "Ack",
         "inputFields": [
-          "Samuel",
-          "Sam",
-          "Sml"
+          "Acknowledgements",
+          "Ack"
         ]
       },
-      "KGS": {
-        "defaultName": "Kings",
-        "defaultAbbreviation": "Kgs",
+      "INT": {
+        "defaultName": "Introduction",
+        "defaultAbbreviation": "Intr",
         "inputFields": [
-          "Kings",
-          "Kgs",
-          "Kngs"
+          "Introduction",
+          "Intr"
         ]
       },
-      "CHR": {
-        "defaultName": "Chronicles",
-        "defaultAbbreviation": "Chr",
+      "FRT": {
+        "defaultName": "Front Matter",
+        "defaultAbbreviation": "FrtMatter",
         "inputFields": [
-          "Chronicles",
-          "Chr",
-          "Chrncls"
+          "Front Matter",
+          "FrtMatter",
+          "FM"
         ]
       },
-      "EZN": {
-        "defaultName": "Ezra-Nehemiah",
-        "defaultAbbreviation": "EzNeh",
+      "TOC": {
+        "defaultName": "Table of Contents",
+        "defaultAbbreviation": "ToC",
         "inputFields": [
-          "Ezra-Nehemiah",
-          "EzNeh",
-          "Ezr Neh"
+          "Table of Contents",
+          "ToC"
         ]
       },
-      "P12": {
-        "defaultName": "Twelve Prophets",
-        "defaultAbbreviation": "TwProp",
+      "BAK": {
+        "defaultName": "Back Matter",
+        "defaultAbbreviation": "Back",
         "inputFields": [
-          "Twelve Prophets",
-          "TwProp",
-          "12 Prophets"
+          "Back Matter",
+          "Back",
+          "Bck"
+        ]
+      },
+      "MAP": {
+        "defaultName": "Maps",
+        "defaultAbbreviation": "Maps",
+        "inputFields": [
+          "Maps",
+          "Mps"
+        ]
+      },
+      "XXA": {
+        "defaultName": "Extra Book A",
+        "defaultAbbreviation": "ExtraA",
+        "inputFields": [
+          "Extra Book A",
+          "ExtraA"
+        ]
+      },
+      "XXB": {
+        "defaultName": "Extra Book B",
+        "defaultAbbreviation": "ExtraB",
+        "inputFields": [
+          "Extra Book B",
+          "ExtraB"
+        ]
+      },
+      "XXC": {
+        "defaultName": "Extra Book C",
+        "defaultAbbreviation": "ExtraC",
+        "inputFields": [
+          "Extra Book C",
+          "ExtraC"
+        ]
+      },
+      "XXD": {
+        "defaultName": "Extra Book D",
+        "defaultAbbreviation": "ExtraD",
+        "inputFields": [
+          "Extra Book D",
+          "ExtraD"
+        ]
+      },
+      "XXE": {
+        "defaultName": "Extra Book E",
+        "defaultAbbreviation": "ExtraE",
+        "inputFields": [
+          "Extra Book E",
+          "ExtraE"
+        ]
+      },
+      "XXF": {
+        "defaultName": "Extra Book F",
+        "defaultAbbreviation": "ExtraF",
+        "inputFields": [
+          "Extra Book F",
+          "ExtraF"
+        ]
+      },
+      "XXG": {
+        "defaultName": "Extra Book G",
+        "defaultAbbreviation": "ExtraG",
+        "inputFields": [
+          "Extra Book G",
+          "ExtraG"
         ]
       }
     }
   ],
-  "eng_traditional": [
+  "eng_extensive": [
     {
       "OT": {
         "includedBooks": [
@@ -4910,18 +4858,45 @@
           "PHM",
           "HEB"
         ],
-        "defaultName": "Pauline Epistles",
-        "defaultAbbreviation": "EpPaul",
+        "defaultName": "Pauline Epistles",
+        "defaultAbbreviation": "EpPaul",
+        "inputFields": [
+          "Pauline Epistles",
+          "EpPaul",
+          "Paul's epistles",
+          "Epistles of Paul",
+          "Ep of Paul",
+          "Letters of Paul",
+          "Ltrs of Paul",
+          "Paul's letters",
+          "Paul's ltrs"
+        ]
+      },
+      "DC": {
+        "includedBooks": [
+          "TOB",
+          "JDT",
+          "ESG",
+          "WIS",
+          "SIR",
+          "LJE",
+          "PAZ",
+          "SUS",
+          "BEL",
+          "MA1",
+          "MA2",
+          "GES",
+          "LES",
+          "MAN"
+        ],
+        "defaultName": "Deuterocanon",
+        "defaultAbbreviation": "DC",
         "inputFields": [
-          "Pauline Epistles",
-          "EpPaul",
-          "Paul's epistles",
-          "Epistles of Paul",
-          "Ep of Paul",
-          "Letters of Paul",
-          "Ltrs of Paul",
-          "Paul's letters",
-          "Paul's ltrs"
+          "Deuterocanon",
+          "DC",
+          "DtrCnn",
+          "Apocrypha",
+          "Apcrypha"
         ]
       }
     },
@@ -5649,1638 +5624,1394 @@
           "Rvln"
         ]
       },
-      "PRF": {
-        "defaultName": "Preface",
-        "defaultAbbreviation": "Prf",
+      "BAR": {
+        "defaultName": "Baruch",
+        "defaultAbbreviation": "Bar",
         "inputFields": [
-          "Preface",
-          "Prf",
-          "Pre"
+          "Baruch",
+          "Bar",
+          "Brch"
         ]
       },
-      "ACK": {
-        "defaultName": "Acknowledgements",
-        "defaultAbbreviation": "Ack",
+      "DNG": {
+        "defaultName": "Daniel (Greek)",
+        "defaultAbbreviation": "Dn(Gk)",
         "inputFields": [
-          "Acknowledgements",
-          "Ack"
+          "Daniel (Greek)",
+          "Dn(Gk)",
+          "DnlGk"
         ]
       },
-      "INT": {
-        "defaultName": "Introduction",
-        "defaultAbbreviation": "Intr",
+      "PAZ": {
+        "defaultName": "Prayer of Azariah",
+        "defaultAbbreviation": "PrAz",
         "inputFields": [
-          "Introduction",
-          "Intr"
+          "Prayer of Azariah",
+          "PrAz",
+          "Pryr Azrh",
+          "Azariah"
         ]
       },
-      "FRT": {
-        "defaultName": "Front Matter",
-        "defaultAbbreviation": "FrtMatter",
+      "BEL": {
+        "defaultName": "Bel and the Dragon",
+        "defaultAbbreviation": "Bel",
         "inputFields": [
-          "Front Matter",
-          "FrtMatter",
-          "FM"
+          "Bel and the Dragon",
+          "Bel",
+          "BaD"
         ]
       },
-      "TOC": {
-        "defaultName": "Table of Contents",
-        "defaultAbbreviation": "ToC",
+      "SUS": {
+        "defaultName": "Susanna",
+        "defaultAbbreviation": "Sus",
         "inputFields": [
-          "Table of Contents",
-          "ToC"
+          "Susanna",
+          "Sus",
+          "Ssnn"
         ]
       },
-      "BAK": {
-        "defaultName": "Back Matter",
-        "defaultAbbreviation": "Back",
+      "GES": {
+        "defaultName": "Greek Esdras",
+        "defaultAbbreviation": "GrkEsd",
         "inputFields": [
-          "Back Matter",
-          "Back",
-          "Bck"
+          "Greek Esdras",
+          "GrkEsd",
+          "Gk Esdras",
+          "1 Esdras",
+          "2 Ezra"
         ]
       },
-      "MAP": {
-        "defaultName": "Maps",
-        "defaultAbbreviation": "Maps",
+      "LES": {
+        "defaultName": "2 Esdras",
+        "defaultAbbreviation": "2 Esd",
         "inputFields": [
-          "Maps",
-          "Mps"
+          "2 Esdras",
+          "2 Esd",
+          "2 Esdrs"
         ]
       },
-      "XXA": {
-        "defaultName": "Extra Book A",
-        "defaultAbbreviation": "ExtraA",
+      "ESG": {
+        "defaultName": "Esther (Greek)",
+        "defaultAbbreviation": "EsGk",
         "inputFields": [
-          "Extra Book A",
-          "ExtraA"
+          "Esther (Greek)",
+          "EsGk",
+          "EstGk"
         ]
       },
-      "XXB": {
-        "defaultName": "Extra Book B",
-        "defaultAbbreviation": "ExtraB",
+      "LJE": {
+        "defaultName": "Epistle of Jeremiah",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "Extra Book B",
-          "ExtraB"
+          "Epistle of Jeremiah",
+          "EpJer",
+          "Ep Jeremiah",
+          "Ep Jrm",
+          "Ltr Jeremiah",
+          "Ltr Jrm"
+        ]
+      },
+      "JDT": {
+        "defaultName": "Judith",
+        "defaultAbbreviation": "Jdt",
+        "inputFields": [
+          "Judith",
+          "Jdt",
+          "Jdth"
+        ]
+      },
+      "MAN": {
+        "defaultName": "Prayer of Manasses",
+        "defaultAbbreviation": "Man",
+        "inputFields": [
+          "Prayer of Manasses",
+          "Man",
+          "Manasses",
+          "Manasseh",
+          "Mnss",
+          "Mnsh",
+          "Pryr Man"
+        ]
+      },
+      "SIR": {
+        "defaultName": "Sirach",
+        "defaultAbbreviation": "Sir",
+        "inputFields": [
+          "Sirach",
+          "Sir",
+          "Srch"
+        ]
+      },
+      "TOB": {
+        "defaultName": "Tobit",
+        "defaultAbbreviation": "Tob",
+        "inputFields": [
+          "Tobit",
+          "Tob",
+          "Tobias",
+          "Tbt",
+          "Tbs"
+        ]
+      },
+      "WIS": {
+        "defaultName": "Wisdom of Solomon",
+        "defaultAbbreviation": "Wis",
+        "inputFields": [
+          "Wisdom of Solomon",
+          "Wis",
+          "Wsdm of Slmn"
+        ]
+      },
+      "MA1": {
+        "defaultName": "1 Maccabees",
+        "defaultAbbreviation": "1 Mac",
+        "inputFields": [
+          "1 Maccabees",
+          "1 Mac",
+          "1 Mccbs",
+          "1 Mcbs"
+        ]
+      },
+      "MA2": {
+        "defaultName": "2 Maccabees",
+        "defaultAbbreviation": "2 Mac",
+        "inputFields": [
+          "2 Maccabees",
+          "2 Mac",
+          "2 Mccbs",
+          "2 Mcbs"
+        ]
+      },
+      "MA3": {
+        "defaultName": "3 Maccabees",
+        "defaultAbbreviation": "3 Mac",
+        "inputFields": [
+          "3 Maccabees",
+          "3 Mac",
+          "3 Mccbs",
+          "3 Mcbs"
+        ]
+      },
+      "MA4": {
+        "defaultName": "4 Maccabees",
+        "defaultAbbreviation": "4 Mac",
+        "inputFields": [
+          "4 Maccabees",
+          "4 Mac",
+          "4 Mccbs",
+          "4 Mcbs"
+        ]
+      },
+      "MA5": {
+        "defaultName": "5 Maccabees",
+        "defaultAbbreviation": "5 Mac",
+        "inputFields": [
+          "5 Maccabees",
+          "5 Mac",
+          "5 Mccbs",
+          "5 Mcbs"
+        ]
+      },
+      "MAC": {
+        "defaultName": "Combined Maccabees",
+        "defaultAbbreviation": "Mac",
+        "inputFields": [
+          "Combined Maccabees",
+          "Mac"
+        ]
+      },
+      "PSB": {
+        "defaultName": "Psalms B",
+        "defaultAbbreviation": "LitPs",
+        "inputFields": [
+          "Psalms B",
+          "LitPs",
+          "Metrical Psalms",
+          "Mtrca Pslms",
+          "Alternative Psalms",
+          "Alt Psalms",
+          "Alt Pslms",
+          "Lit Psalms",
+          "Lit Pslms"
         ]
       },
-      "XXC": {
-        "defaultName": "Extra Book C",
-        "defaultAbbreviation": "ExtraC",
+      "PS2": {
+        "defaultName": "Psalm 151",
+        "defaultAbbreviation": "Ps151",
         "inputFields": [
-          "Extra Book C",
-          "ExtraC"
+          "Psalm 151",
+          "Ps151",
+          "Pslm 151"
         ]
       },
-      "XXD": {
-        "defaultName": "Extra Book D",
-        "defaultAbbreviation": "ExtraD",
+      "PS3": {
+        "defaultName": "Syriac Psalms",
+        "defaultAbbreviation": "SyrPs",
         "inputFields": [
-          "Extra Book D",
-          "ExtraD"
+          "Syriac Psalms",
+          "SyrPs",
+          "Syr Pslms"
         ]
       },
-      "XXE": {
-        "defaultName": "Extra Book E",
-        "defaultAbbreviation": "ExtraE",
+      "PSS": {
+        "defaultName": "Psalms of Solomon",
+        "defaultAbbreviation": "AddPs",
         "inputFields": [
-          "Extra Book E",
-          "ExtraE"
+          "Psalms of Solomon",
+          "AddPs",
+          "Ps Sol",
+          "Slmn Pslms"
         ]
       },
-      "XXF": {
-        "defaultName": "Extra Book F",
-        "defaultAbbreviation": "ExtraF",
+      "LAO": {
+        "defaultName": "Laodiceans",
+        "defaultAbbreviation": "Lao",
         "inputFields": [
-          "Extra Book F",
-          "ExtraF"
+          "Laodiceans",
+          "Lao",
+          "Eps Lao",
+          "Ltr Lao"
         ]
       },
-      "XXG": {
-        "defaultName": "Extra Book G",
-        "defaultAbbreviation": "ExtraG",
+      "ODE": {
+        "defaultName": "Odes",
+        "defaultAbbreviation": "Ode",
         "inputFields": [
-          "Extra Book G",
-          "ExtraG"
+          "Odes",
+          "Ode",
+          "Odae"
         ]
-      }
-    }
-  ],
-  "fra_traditional": [
-    {
-      "OT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU",
-          "JOS",
-          "JDG",
-          "RUT",
-          "SA1",
-          "SA2",
-          "KI1",
-          "KI2",
-          "CH1",
-          "CH2",
-          "EZR",
-          "NEH",
-          "EST",
-          "JOB",
-          "PSA",
-          "PRO",
-          "ECC",
-          "SNG",
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Ancien Testament",
-        "defaultAbbreviation": "AT",
+      },
+      "PSO": {
+        "defaultName": "Prayer of Solomon",
+        "defaultAbbreviation": "PrSol",
         "inputFields": [
-          "Ancien Testament",
-          "AT",
-          "L'Ancien Testament",
-          "L'Ancien Tstmnt"
+          "Prayer of Solomon",
+          "PrSol",
+          "Pryr Slm"
         ]
       },
-      "PT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU"
-        ],
-        "defaultName": "Pentateuch",
-        "defaultAbbreviation": "Pent",
+      "PJE": {
+        "defaultName": "Prayer of Jeremiah",
+        "defaultAbbreviation": "PrJer",
         "inputFields": [
-          "Pentateuch",
-          "Pnttch",
-          "Torah",
-          "Trh",
-          "Moses' books",
-          "Books of Moses",
-          "Bks of Moses"
+          "Prayer of Jeremiah",
+          "PrJer",
+          "Pryr Jeremiah"
         ]
       },
-      "MJ": {
-        "includedBooks": [
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "BAR"
-        ],
-        "defaultName": "Major Prophets",
-        "defaultAbbreviation": "MajProps",
+      "WSI": {
+        "defaultName": "Words of Sirach",
+        "defaultAbbreviation": "WrdsSir",
         "inputFields": [
-          "Major Prophets",
-          "MajProps",
-          "Mjr Prphts"
+          "Words of Sirach",
+          "WrdsSir",
+          "Wrds Sirach",
+          "Wrds Srch"
         ]
       },
-      "MN": {
-        "includedBooks": [
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Minor Prophets",
-        "defaultAbbreviation": "MinProp",
+      "COP": {
+        "defaultName": "Epistle of Corinthians to Paul",
+        "defaultAbbreviation": "EpCor",
         "inputFields": [
-          "Minor Prophets",
-          "MinProp",
-          "Mnr Prphts"
+          "Epistle of Corinthians to Paul",
+          "EpCor",
+          "Ep Corinthians",
+          "Ep Crnthns",
+          "Ltr Corinthians",
+          "Ltr Crnthns"
         ]
       },
-      "NT": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN",
-          "ACT",
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB",
-          "JAM",
-          "PE1",
-          "PE2",
-          "JN1",
-          "JN2",
-          "JN3",
-          "JDE",
-          "REV"
-        ],
-        "defaultName": "Nouveau Testament",
-        "defaultAbbreviation": "NT",
+      "CO3": {
+        "defaultName": "3 Corinthians",
+        "defaultAbbreviation": "3 Cor",
         "inputFields": [
-          "Nouveau Testament",
-          "NT",
-          "Le Nouveau Testament",
-          "Nv Tstmnt"
+          "3 Corinthians",
+          "3 Cor",
+          "3 Crnthns"
         ]
       },
-      "GO": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN"
-        ],
-        "defaultName": "Gospels",
-        "defaultAbbreviation": "Gosp",
+      "EUT": {
+        "defaultName": "Prayer of Euthalius",
+        "defaultAbbreviation": "Eut",
         "inputFields": [
-          "Gospels",
-          "Gspls"
+          "Prayer of Euthalius",
+          "Eut",
+          "Pr Eut"
+        ]
+      },
+      "DOJ": {
+        "defaultName": "Dormition of John",
+        "defaultAbbreviation": "DoJ",
+        "inputFields": [
+          "Dormition of John",
+          "DoJ",
+          "Drm Jhn",
+          "Drm Jn"
         ]
       },
-      "PL": {
-        "includedBooks": [
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB"
-        ],
-        "defaultName": "Pauline Epistles",
-        "defaultAbbreviation": "EpPaul",
+      "TTP": {
+        "defaultName": "Testaments of the Twelve Patriarchs",
+        "defaultAbbreviation": "Tst12Patr",
         "inputFields": [
-          "Pauline Epistles",
-          "EpPaul",
-          "Paul's epistles",
-          "Epistles of Paul",
-          "Ep of Paul",
-          "Letters of Paul",
-          "Ltrs of Paul",
-          "Paul's letters",
-          "Paul's ltrs"
+          "Testaments of the Twelve Patriarchs",
+          "Tst12Patr"
         ]
-      }
-    },
-    {
-      "1 ": [
-        "I ",
-        "Premi\u00e8re ",
-        "Premiere ",
-        "Prmre ",
-        "1st ",
-        "One "
-      ],
-      "2 ": [
-        "II ",
-        "Seconde ",
-        "Scnde ",
-        "2nd ",
-        "Two "
-      ],
-      "3 ": [
-        "III ",
-        "Troisi\u00e8me ",
-        "Troisieme ",
-        "Trsme ",
-        "3rd ",
-        "Three "
-      ],
-      "4 ": [
-        "IV ",
-        "Quatri\u00e8me ",
-        "Quatrieme ",
-        "Qutrme ",
-        "Qtrme ",
-        "4th ",
-        "Four "
-      ],
-      "5 ": [
-        "V ",
-        "Cinqui\u00e8me ",
-        "Cinquieme ",
-        "Cnqme ",
-        "5th ",
-        "Five "
-      ],
-      "6 ": [
-        "VI ",
-        "Sixth ",
-        "Sxth ",
-        "6th ",
-        "Six "
-      ],
-      "Saint ": [
-        "Snt ",
-        "St ",
-        "Snt. ",
-        "St. "
-      ]
-    },
-    {
-      "GEN": {
-        "defaultName": "Gen\u00e8se",
-        "defaultAbbreviation": "Gen",
+      },
+      "JUB": {
+        "defaultName": "Jubilees",
+        "defaultAbbreviation": "Jub",
         "inputFields": [
-          "Gen\u00e8se",
-          "Gen",
-          "Genese",
-          "Gns",
-          "1 Moses",
-          "1 Mss"
+          "Jubilees",
+          "Jub",
+          "Jbls"
         ]
       },
-      "EXO": {
-        "defaultName": "Exode",
-        "defaultAbbreviation": "Exo",
+      "ENO": {
+        "defaultName": "Enoch",
+        "defaultAbbreviation": "Eno",
         "inputFields": [
-          "Exode",
-          "Exo",
-          "Exde",
-          "L'Exode",
-          "L'Exde",
-          "2 Moses",
-          "2 Mss"
+          "Enoch",
+          "Eno",
+          "Ench",
+          "1 Enoch",
+          "1 Ench"
         ]
       },
-      "LEV": {
-        "defaultName": "L\u00e9vitique",
-        "defaultAbbreviation": "Lev",
+      "EN2": {
+        "defaultName": "2 Enoch",
+        "defaultAbbreviation": "2 Eno",
         "inputFields": [
-          "L\u00e9vitique",
-          "Lev",
-          "Levitique",
-          "Lvtque",
-          "3 Moses",
-          "3 Mss"
+          "2 Enoch",
+          "2 Eno",
+          "2 Ench"
         ]
       },
-      "NUM": {
-        "defaultName": "Nombres",
-        "defaultAbbreviation": "Nom",
+      "EZA": {
+        "defaultName": "Apocalypse of Ezra",
+        "defaultAbbreviation": "ApEz",
         "inputFields": [
-          "Nombres",
-          "Nom",
-          "Nmbrs",
-          "4 Moses",
-          "4 Mss"
+          "Apocalypse of Ezra",
+          "ApEz",
+          "Ap Ezra"
         ]
       },
-      "DEU": {
-        "defaultName": "Deut\u00e9ronome",
-        "defaultAbbreviation": "Deu",
+      "EZ5": {
+        "defaultName": "5 Ezra",
+        "defaultAbbreviation": "5 Ezr",
         "inputFields": [
-          "Deut\u00e9ronome",
-          "Deu",
-          "Deuteronome",
-          "Dtrnme",
-          "5 Moses",
-          "5 Mss"
+          "5 Ezra",
+          "5 Ezr",
+          "5 Esdras"
         ]
       },
-      "JOS": {
-        "defaultName": "Josu\u00e9",
-        "defaultAbbreviation": "Jos",
+      "EZ6": {
+        "defaultName": "6 Ezra",
+        "defaultAbbreviation": "6 Ezr",
         "inputFields": [
-          "Josu\u00e9",
-          "Jos",
-          "Josue",
-          "Jsue"
+          "6 Ezra",
+          "6 Ezr",
+          "6 Esdras"
         ]
       },
-      "JDG": {
-        "defaultName": "Juges",
-        "defaultAbbreviation": "Jug",
+      "REP": {
+        "defaultName": "Reproof",
+        "defaultAbbreviation": "Rep",
         "inputFields": [
-          "Juges",
-          "Jug",
-          "Jges",
-          "Jgs"
+          "Reproof",
+          "Rep",
+          "Rprf"
         ]
       },
-      "RUT": {
-        "defaultName": "Ruth",
-        "defaultAbbreviation": "Rut",
+      "MQ1": {
+        "defaultName": "1 Meqabyan",
+        "defaultAbbreviation": "1 Meq",
         "inputFields": [
-          "Ruth",
-          "Rut",
-          "Rth"
+          "1 Meqabyan",
+          "1 Meq",
+          "1 Mqbyn",
+          "1 Makabian",
+          "1 Mkbn",
+          "Mekabis of Benjamin",
+          "Mekabis Benjamin",
+          "Mkbs Bnjmn"
         ]
       },
-      "SA1": {
-        "defaultName": "1 Samuel",
-        "defaultAbbreviation": "1 Sam",
+      "MQ2": {
+        "defaultName": "2 Meqabyan",
+        "defaultAbbreviation": "2 Meq",
         "inputFields": [
-          "1 Samuel",
-          "1 Sam",
-          "1 Sml"
+          "2 Meqabyan",
+          "2 Meq",
+          "2 Mqbyn",
+          "2 Makabian",
+          "2 Mkbn",
+          "Mekabis of Moab",
+          "Mekabis Moab",
+          "Mkbs Mb"
         ]
       },
-      "SA2": {
-        "defaultName": "2 Samuel",
-        "defaultAbbreviation": "2 Sam",
+      "MQ3": {
+        "defaultName": "3 Meqabyan",
+        "defaultAbbreviation": "3 Meq",
         "inputFields": [
-          "2 Samuel",
-          "2 Sam",
-          "2 Sml"
+          "3 Meqabyan",
+          "3 Meq",
+          "3 Mqbyn",
+          "3 Makabian",
+          "3 Mkbn"
         ]
       },
-      "KI1": {
-        "defaultName": "1 Rois",
-        "defaultAbbreviation": "1 Rs",
+      "BA2": {
+        "defaultName": "2 Baruch",
+        "defaultAbbreviation": "2 Bar",
         "inputFields": [
-          "1 Rois",
-          "1 Rs"
+          "2 Baruch",
+          "2 Bar",
+          "2 Brch",
+          "Apocalypse of Baruch",
+          "Apoc of Baruch",
+          "Apoc Baruch"
         ]
       },
-      "KI2": {
-        "defaultName": "2 Rois",
-        "defaultAbbreviation": "2 Rs",
+      "BA3": {
+        "defaultName": "3 Baruch",
+        "defaultAbbreviation": "3 Bar",
         "inputFields": [
-          "2 Rois",
-          "2 Rs"
+          "3 Baruch",
+          "3 Bar",
+          "3 Brch"
         ]
       },
-      "CH1": {
-        "defaultName": "1 Chroniques",
-        "defaultAbbreviation": "1 Chr",
+      "BA4": {
+        "defaultName": "4 Baruch",
+        "defaultAbbreviation": "4 Bar",
         "inputFields": [
-          "1 Chroniques",
-          "1 Chr",
-          "1 Chrnqs",
-          "1 Croniqs",
-          "1 Crnq"
+          "4 Baruch",
+          "4 Bar",
+          "4 Brch",
+          "Paralipomenon of Jeremiah",
+          "Prlp of Jrmh",
+          "Rest of Words of Baruch"
         ]
       },
-      "CH2": {
-        "defaultName": "2 Chroniques",
-        "defaultAbbreviation": "2 Chr",
+      "LBA": {
+        "defaultName": "Epistle of Baruch",
+        "defaultAbbreviation": "EpBar",
         "inputFields": [
-          "2 Chroniques",
-          "2 Chr",
-          "2 Chrnqs",
-          "2 Croniqs",
-          "2 Crnq"
+          "Epistle of Baruch",
+          "EpBar",
+          "Ep Baruch",
+          "Ep Brch",
+          "Epi Baruch",
+          "Epis Baruch",
+          "Letter of Baruch",
+          "Ltr of Baruch",
+          "Ltr Baruch"
         ]
       },
-      "EZR": {
-        "defaultName": "Esdras",
-        "defaultAbbreviation": "Esd",
+      "LJB": {
+        "defaultName": "Epistle of Jeremiah (with Baruch)",
+        "defaultAbbreviation": "EpJerBar",
         "inputFields": [
-          "Esdras",
-          "Esd",
-          "Esdrs"
+          "Epistle of Jeremiah (with Baruch)",
+          "EpJerBar",
+          "Ep Jer Bar"
         ]
       },
-      "NEH": {
-        "defaultName": "N\u00e9h\u00e9mie",
-        "defaultAbbreviation": "Neh",
+      "CL1": {
+        "defaultName": "1 Clement",
+        "defaultAbbreviation": "1 Cle",
         "inputFields": [
-          "N\u00e9h\u00e9mie",
-          "Neh",
-          "Nhmie",
-          "Neh\u00e9mie",
-          "N\u00e9hemie",
-          "Nehemie"
+          "1 Clement",
+          "1 Cle",
+          "1 Clmnt"
         ]
       },
-      "EST": {
-        "defaultName": "Ester",
-        "defaultAbbreviation": "Est",
+      "CL2": {
+        "defaultName": "2 Clement",
+        "defaultAbbreviation": "2 Cle",
         "inputFields": [
-          "Ester",
-          "Est",
-          "Esther",
-          "Estr"
+          "2 Clement",
+          "2 Cle",
+          "2 Clmnt"
         ]
       },
-      "JOB": {
-        "defaultName": "Job",
-        "defaultAbbreviation": "Job",
+      "SHE": {
+        "defaultName": "Shepherd of Hermas",
+        "defaultAbbreviation": "ShepHermas",
         "inputFields": [
-          "Job",
-          "Jb"
+          "Shepherd of Hermas",
+          "ShepHermas"
         ]
       },
-      "PSA": {
-        "defaultName": "Psaumes",
-        "defaultAbbreviation": "Psa",
+      "DID": {
+        "defaultName": "Didache",
+        "defaultAbbreviation": "Did",
         "inputFields": [
-          "Psaumes",
-          "Psa",
-          "Psms"
+          "Didache",
+          "Did",
+          "Ddch"
         ]
       },
-      "PRO": {
-        "defaultName": "Proverbes",
-        "defaultAbbreviation": "Pro",
+      "MOS": {
+        "defaultName": "Moses",
+        "defaultAbbreviation": "Mos",
         "inputFields": [
-          "Proverbes",
-          "Pro",
-          "Prvrbs",
-          "Prvbs"
+          "Moses",
+          "Mos",
+          "Mss"
         ]
       },
-      "ECC": {
-        "defaultName": "Eccl\u00e9siaste",
-        "defaultAbbreviation": "Ecc",
+      "SAM": {
+        "defaultName": "Samuel",
+        "defaultAbbreviation": "Sam",
         "inputFields": [
-          "Eccl\u00e9siaste",
-          "Ecc",
-          "Ecclesiaste",
-          "L'Eccl\u00e9siaste",
-          "L'Ecclesiaste",
-          "Ecclst"
+          "Samuel",
+          "Sam",
+          "Sml"
         ]
       },
-      "SNG": {
-        "defaultName": "Cantique de Salomon",
-        "defaultAbbreviation": "Cnt",
+      "KGS": {
+        "defaultName": "Kings",
+        "defaultAbbreviation": "Kgs",
         "inputFields": [
-          "Cantique de Salomon",
-          "Cnt",
-          "Cantique des Cantiques",
-          "Cnt de Slmn",
-          "CdS",
-          "CS"
+          "Kings",
+          "Kgs",
+          "Kngs"
         ]
       },
-      "ISA": {
-        "defaultName": "\u00c9saie",
-        "defaultAbbreviation": "\u00c9sa",
+      "CHR": {
+        "defaultName": "Chronicles",
+        "defaultAbbreviation": "Chr",
         "inputFields": [
-          "\u00c9saie",
-          "\u00c9sa",
-          "Esa\u00efe",
-          "Esaie"
+          "Chronicles",
+          "Chr",
+          "Chrncls"
         ]
       },
-      "JER": {
-        "defaultName": "J\u00e9r\u00e9mie",
-        "defaultAbbreviation": "J\u00e9r",
+      "EZN": {
+        "defaultName": "Ezra-Nehemiah",
+        "defaultAbbreviation": "EzNeh",
         "inputFields": [
-          "J\u00e9r\u00e9mie",
-          "J\u00e9r",
-          "Jeremie",
-          "Jer\u00e9mie",
-          "J\u00e9remie",
-          "Jrm"
+          "Ezra-Nehemiah",
+          "EzNeh",
+          "Ezr Neh"
         ]
       },
-      "LAM": {
-        "defaultName": "Lamentations",
-        "defaultAbbreviation": "Lam",
+      "ESA": {
+        "defaultName": "Greek Additions to Esther",
+        "defaultAbbreviation": "EstGrk+",
         "inputFields": [
-          "Lamentations",
-          "Lam",
-          "Lmnts"
+          "Greek Additions to Esther",
+          "EstGrk+"
         ]
       },
-      "EZE": {
-        "defaultName": "\u00c9z\u00e9chiel",
-        "defaultAbbreviation": "\u00c9z\u00e9",
+      "ESC": {
+        "defaultName": "Combined Hebrew/Greek Esther",
+        "defaultAbbreviation": "EstComb",
         "inputFields": [
-          "\u00c9z\u00e9chiel",
-          "\u00c9z\u00e9",
-          "Ezechiel",
-          "Ez\u00e9chiel",
-          "\u00c9zechiel",
-          "\u00c9zchl",
-          "Ezchl"
+          "Combined Hebrew/Greek Esther",
+          "EstComb"
         ]
       },
-      "DAN": {
-        "defaultName": "Daniel",
-        "defaultAbbreviation": "Dan",
+      "DNA": {
+        "defaultName": "Greek Additions to Daniel",
+        "defaultAbbreviation": "DanGrk+",
         "inputFields": [
-          "Daniel",
-          "Dan",
-          "Dnl"
+          "Greek Additions to Daniel",
+          "DanGrk+"
         ]
       },
-      "HOS": {
-        "defaultName": "Os\u00e8e",
-        "defaultAbbreviation": "Os\u00e8",
+      "DNC": {
+        "defaultName": "Combined Hebrew/Greek Daniel",
+        "defaultAbbreviation": "DanComb",
         "inputFields": [
-          "Os\u00e8e",
-          "Os\u00e8",
-          "Os\u00e9e",
-          "Osee"
+          "Combined Hebrew/Greek Daniel",
+          "DanComb"
         ]
       },
-      "JOL": {
-        "defaultName": "Jo\u00ebl",
-        "defaultAbbreviation": "Joel",
+      "LKA": {
+        "defaultName": "Luke-Acts",
+        "defaultAbbreviation": "LkAct",
         "inputFields": [
-          "Jo\u00ebl",
-          "Joel",
-          "Jol",
-          "Jl"
+          "Luke-Acts",
+          "LkAct"
         ]
       },
-      "AMO": {
-        "defaultName": "Amos",
-        "defaultAbbreviation": "Amos",
+      "P12": {
+        "defaultName": "Twelve Prophets",
+        "defaultAbbreviation": "TwProp",
         "inputFields": [
-          "Amos",
-          "Ams"
+          "Twelve Prophets",
+          "TwProp",
+          "12 Prophets"
         ]
       },
-      "OBA": {
-        "defaultName": "Abdias",
-        "defaultAbbreviation": "Abd",
+      "LB2": {
+        "defaultName": "2 Baruch with Letter",
+        "defaultAbbreviation": "2BarLet",
         "inputFields": [
-          "Abdias",
-          "Abd",
-          "Abds"
+          "2 Baruch with Letter",
+          "2BarLet"
         ]
       },
-      "JNA": {
-        "defaultName": "Jonas",
-        "defaultAbbreviation": "Jon",
+      "LBB": {
+        "defaultName": "Letter of Barnabas",
+        "defaultAbbreviation": "LetBarn",
         "inputFields": [
-          "Jonas",
-          "Jon",
-          "Jns"
+          "Letter of Barnabas",
+          "LetBarn"
         ]
       },
-      "MIC": {
-        "defaultName": "Mich\u00e9e",
-        "defaultAbbreviation": "Mic",
+      "PB1": {
+        "defaultName": "Psalms Book 1",
+        "defaultAbbreviation": "PsBk1",
         "inputFields": [
-          "Mich\u00e9e",
-          "Mic",
-          "Michee",
-          "Mch\u00e9e",
-          "Mchee"
+          "Psalms Book 1",
+          "PsBk1"
         ]
       },
-      "NAH": {
-        "defaultName": "Nahum",
-        "defaultAbbreviation": "Nah",
-        "inputFields": [
-          "Nahum",
-          "Nah",
-          "Nahm",
-          "Nhum"
+      "PB2": {
+        "defaultName": "Psalms Book 2",
+        "defaultAbbreviation": "PsBk2",
+        "inputFields": [
+          "Psalms Book 2",
+          "PsBk2"
         ]
       },
-      "HAB": {
-        "defaultName": "Habacuc",
-        "defaultAbbreviation": "Hab",
+      "PB3": {
+        "defaultName": "Psalms Book 3",
+        "defaultAbbreviation": "PsBk3",
         "inputFields": [
-          "Habacuc",
-          "Hab",
-          "Habakuk",
-          "Hbcc"
+          "Psalms Book 3",
+          "PsBk3"
         ]
       },
-      "ZEP": {
-        "defaultName": "Sophonie",
-        "defaultAbbreviation": "Sop",
+      "PB4": {
+        "defaultName": "Psalms Book 4",
+        "defaultAbbreviation": "PsBk4",
         "inputFields": [
-          "Sophonie",
-          "Sop",
-          "Sphnie"
+          "Psalms Book 4",
+          "PsBk4"
         ]
       },
-      "HAG": {
-        "defaultName": "Agg\u00e9e",
-        "defaultAbbreviation": "Agg",
+      "PB5": {
+        "defaultName": "Psalms Book 5",
+        "defaultAbbreviation": "PsBk5",
         "inputFields": [
-          "Agg\u00e9e",
-          "Agg",
-          "Aggee",
-          "Ag\u00e9e",
-          "Agee"
+          "Psalms Book 5",
+          "PsBk5"
         ]
       },
-      "ZEC": {
-        "defaultName": "Zacharie",
-        "defaultAbbreviation": "Zac",
+      "RVE": {
+        "defaultName": "Revelation of Ezra",
+        "defaultAbbreviation": "RevEzra",
         "inputFields": [
-          "Zacharie",
-          "Zac",
-          "Zchrie"
+          "Revelation of Ezra",
+          "RevEzra"
         ]
       },
-      "MAL": {
-        "defaultName": "Malachie",
-        "defaultAbbreviation": "Mal",
+      "VSE": {
+        "defaultName": "Vison of Ezra",
+        "defaultAbbreviation": "VisEzra",
         "inputFields": [
-          "Malachie",
-          "Mal",
-          "Mlchie"
+          "Vison of Ezra",
+          "VisEzra"
         ]
       },
-      "MAT": {
-        "defaultName": "Matthieu",
-        "defaultAbbreviation": "Mat",
+      "JRA": {
+        "defaultName": "Additions to Jeremiah / Rest of Jeremiah",
+        "defaultAbbreviation": "AddJer",
         "inputFields": [
-          "Matthieu",
-          "Mat",
-          "Mtth",
-          "Mth",
-          "Saint Matthieu",
-          "Saint Mtth",
-          "Saint Mth"
+          "Additions to Jeremiah / Rest of Jeremiah",
+          "AddJer"
         ]
       },
-      "MRK": {
-        "defaultName": "Marc",
-        "defaultAbbreviation": "Mrc",
+      "PSJ": {
+        "defaultName": "Pseudo-Josephus",
+        "defaultAbbreviation": "PsdJosp",
         "inputFields": [
-          "Marc",
-          "Mrc",
-          "Mrk",
-          "Mc",
-          "Saint Marc",
-          "Saint Mrc",
-          "Saint Mc"
+          "Pseudo-Josephus",
+          "PsdJosp"
         ]
       },
-      "LUK": {
-        "defaultName": "Luc",
-        "defaultAbbreviation": "Luc",
+      "GHE": {
+        "defaultName": "Gospel of the Hebrews",
+        "defaultAbbreviation": "GospHebr",
         "inputFields": [
-          "Luc",
-          "Lc",
-          "Saint Luc",
-          "Saint Lc"
+          "Gospel of the Hebrews",
+          "GospHebr"
         ]
       },
-      "JHN": {
-        "defaultName": "Jean",
-        "defaultAbbreviation": "Jn",
+      "GTR": {
+        "defaultName": "Gospel of Truth",
+        "defaultAbbreviation": "GospTruth",
         "inputFields": [
-          "Jean",
-          "Jn",
-          "Saint Jean",
-          "Saint Jn"
+          "Gospel of Truth",
+          "GospTruth"
         ]
       },
-      "ACT": {
-        "defaultName": "Actes",
-        "defaultAbbreviation": "Act",
+      "GMA": {
+        "defaultName": "Gospel of Mary",
+        "defaultAbbreviation": "GospMary",
         "inputFields": [
-          "Actes",
-          "Act",
-          "Acts"
+          "Gospel of Mary",
+          "GospMary"
         ]
       },
-      "ROM": {
-        "defaultName": "Romains",
-        "defaultAbbreviation": "Rom",
+      "GMC": {
+        "defaultName": "Gospel of Marcion",
+        "defaultAbbreviation": "GospMarcion",
         "inputFields": [
-          "Romains",
-          "Rom",
-          "Rmns"
+          "Gospel of Marcion",
+          "GospMarcion"
         ]
       },
-      "CO1": {
-        "defaultName": "1 Corinthiens",
-        "defaultAbbreviation": "1 Cor",
+      "GTW": {
+        "defaultName": "Gospel of the Twelve",
+        "defaultAbbreviation": "Gosp12",
         "inputFields": [
-          "1 Corinthiens",
-          "1 Cor",
-          "1 Crnthns"
+          "Gospel of the Twelve",
+          "Gosp12"
         ]
       },
-      "CO2": {
-        "defaultName": "2 Corinthiens",
-        "defaultAbbreviation": "2 Cor",
+      "GPH": {
+        "defaultName": "Gospel of Philip",
+        "defaultAbbreviation": "GospPhil",
         "inputFields": [
-          "2 Corinthiens",
-          "2 Cor",
-          "2 Crnthns"
+          "Gospel of Philip",
+          "GospPhil"
         ]
       },
-      "GAL": {
-        "defaultName": "Galates",
-        "defaultAbbreviation": "Gal",
+      "GTH": {
+        "defaultName": "Gospel of Thomas",
+        "defaultAbbreviation": "GospThom",
         "inputFields": [
-          "Galates",
-          "Gal",
-          "Glts"
+          "Gospel of Thomas",
+          "GospThom"
         ]
       },
-      "EPH": {
-        "defaultName": "\u00c9ph\u00e9siens",
-        "defaultAbbreviation": "\u00c9ph",
+      "GJU": {
+        "defaultName": "Gospel of Judas",
+        "defaultAbbreviation": "GospJudas",
         "inputFields": [
-          "\u00c9ph\u00e9siens",
-          "\u00c9ph",
-          "Eph\u00e9siens",
-          "\u00c9phesiens",
-          "Ephesiens",
-          "\u00c9phsns",
-          "Ephsns"
+          "Gospel of Judas",
+          "GospJudas"
         ]
       },
-      "PHP": {
-        "defaultName": "Philippiens",
-        "defaultAbbreviation": "Php",
+      "GBA": {
+        "defaultName": "Gospel of Bartholomew",
+        "defaultAbbreviation": "GospBart",
         "inputFields": [
-          "Philippiens",
-          "Php",
-          "Phlppns",
-          "Phlpns",
-          "Phillipiens",
-          "Philipiens",
-          "Phillippiens"
+          "Gospel of Bartholomew",
+          "GospBart"
         ]
       },
-      "COL": {
-        "defaultName": "Colossiens",
-        "defaultAbbreviation": "Col",
+      "AJA": {
+        "defaultName": "Apocrypha of James / Apocryphal James",
+        "defaultAbbreviation": "ApocJames",
         "inputFields": [
-          "Colossiens",
-          "Col",
-          "Clssns",
-          "Clsns",
-          "Cllssns",
-          "Collosiens",
-          "Collossiens",
-          "Colosiens"
+          "Apocrypha of James / Apocryphal James",
+          "ApocJames"
         ]
       },
-      "TH1": {
-        "defaultName": "1 Thessaloniciens",
-        "defaultAbbreviation": "1 Thess",
+      "WJC": {
+        "defaultName": "Wisdom of Jesus Christ",
+        "defaultAbbreviation": "WisJC",
         "inputFields": [
-          "1 Thessaloniciens",
-          "1 Thess",
-          "1 Thsslncns",
-          "1 Thslns",
-          "1 Thesalloniciens",
-          "1 Thessalloniciens",
-          "1 Thesaloniciens"
+          "Wisdom of Jesus Christ",
+          "WisJC"
         ]
       },
-      "TH2": {
-        "defaultName": "2 Thessaloniciens",
-        "defaultAbbreviation": "2 Thess",
+      "TAD": {
+        "defaultName": "Testament of Adam",
+        "defaultAbbreviation": "TstAdam",
         "inputFields": [
-          "2 Thessaloniciens",
-          "2 Thess",
-          "2 Thsslncns",
-          "2 Thslns",
-          "2 Thesalloniciens",
-          "2 Thessalloniciens",
-          "2 Thesaloniciens"
+          "Testament of Adam",
+          "TstAdam"
         ]
       },
-      "TI1": {
-        "defaultName": "1 Timoth\u00e9e",
-        "defaultAbbreviation": "1 Tim",
+      "LAE": {
+        "defaultName": "Life of Adam and Eve",
+        "defaultAbbreviation": "AdamEve",
         "inputFields": [
-          "1 Timoth\u00e9e",
-          "1 Tim",
-          "1 Tmth",
-          "1 Timothee"
+          "Life of Adam and Eve",
+          "AdamEve"
         ]
       },
-      "TI2": {
-        "defaultName": "2 Timoth\u00e9e",
-        "defaultAbbreviation": "2 Tim",
+      "ASS": {
+        "defaultName": "Assumption of Moses / Testament of Moses",
+        "defaultAbbreviation": "AssMos",
         "inputFields": [
-          "2 Timoth\u00e9e",
-          "2 Tim",
-          "2 Tmth",
-          "2 Timothee"
+          "Assumption of Moses / Testament of Moses",
+          "AssMos"
         ]
       },
-      "TIT": {
-        "defaultName": "Tite",
-        "defaultAbbreviation": "Tit",
+      "TSO": {
+        "defaultName": "Testament of Solomon",
+        "defaultAbbreviation": "TstSol",
         "inputFields": [
-          "Tite",
-          "Tit",
-          "Tte"
+          "Testament of Solomon",
+          "TstSol"
         ]
       },
-      "PHM": {
-        "defaultName": "Phil\u00e9mon",
-        "defaultAbbreviation": "Phm",
+      "TJB": {
+        "defaultName": "Testament of Job",
+        "defaultAbbreviation": "TstJob",
         "inputFields": [
-          "Phil\u00e9mon",
-          "Phm",
-          "Phlmn",
-          "Philemon"
+          "Testament of Job",
+          "TstJob"
         ]
       },
-      "HEB": {
-        "defaultName": "H\u00e9breux",
-        "defaultAbbreviation": "Heb",
+      "MAI": {
+        "defaultName": "Martyrdom and Ascension of Isaiah",
+        "defaultAbbreviation": "MAIs",
         "inputFields": [
-          "H\u00e9breux",
-          "Heb",
-          "Hbrx",
-          "Hebreux"
+          "Martyrdom and Ascension of Isaiah",
+          "MAIs"
         ]
       },
-      "JAM": {
-        "defaultName": "Jacques",
-        "defaultAbbreviation": "Jac",
+      "AEZ": {
+        "defaultName": "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
+        "defaultAbbreviation": "ApocEze",
         "inputFields": [
-          "Jacques",
-          "Jac",
-          "Jcqs",
-          "Saint Jacques",
-          "Saint Jcqs"
+          "Apocrypha of Ezekiel / Apocryphon of Ezekiel",
+          "ApocEze"
         ]
       },
-      "PE1": {
-        "defaultName": "1 Pierre",
-        "defaultAbbreviation": "1 Pie",
+      "EZT": {
+        "defaultName": "Ezekiel the Tragedian",
+        "defaultAbbreviation": "EzeTrg",
         "inputFields": [
-          "1 Pierre",
-          "1 Pie",
-          "1 Prre",
-          "1 Saint Pierre",
-          "1 Saint Prre"
+          "Ezekiel the Tragedian",
+          "EzeTrg"
         ]
       },
-      "PE2": {
-        "defaultName": "2 Pierre",
-        "defaultAbbreviation": "2 Pie",
+      "EUP": {
+        "defaultName": "Eupolemus",
+        "defaultAbbreviation": "Eup",
         "inputFields": [
-          "2 Pierre",
-          "2 Pie",
-          "2 Prre",
-          "2 Saint Pierre",
-          "2 Saint Prre"
+          "Eupolemus",
+          "Eup"
         ]
       },
-      "JN1": {
-        "defaultName": "1 Jean",
-        "defaultAbbreviation": "1 Jn",
+      "PEU": {
+        "defaultName": "Pseudo of Eupolemus / Pseudo-Eupolemus",
+        "defaultAbbreviation": "PsdEup",
         "inputFields": [
-          "1 Jean",
-          "1 Jn",
-          "1 Jen"
+          "Pseudo of Eupolemus / Pseudo-Eupolemus",
+          "PsdEup"
         ]
       },
-      "JN2": {
-        "defaultName": "2 Jean",
-        "defaultAbbreviation": "2 Jn",
+      "VAM": {
+        "defaultName": "Visions of Amram",
+        "defaultAbbreviation": "VisAm",
         "inputFields": [
-          "2 Jean",
-          "2 Jn",
-          "2 Jen"
+          "Visions of Amram",
+          "VisAm"
         ]
       },
-      "JN3": {
-        "defaultName": "3 Jean",
-        "defaultAbbreviation": "3 Jn",
+      "LAR": {
+        "defaultName": "Letter of Aristeas / Epistle of Aristeas",
+        "defaultAbbreviation": "LettAris",
         "inputFields": [
-          "3 Jean",
-          "3 Jn",
-          "3 Jen"
+          "Letter of Aristeas / Epistle of Aristeas",
+          "LettAris"
         ]
       },
-      "JDE": {
-        "defaultName": "Jude",
-        "defaultAbbreviation": "Jud",
+      "ARI": {
+        "defaultName": "Aristeas the Exegete",
+        "defaultAbbreviation": "Aris",
         "inputFields": [
-          "Jude",
-          "Jud",
-          "Jde"
+          "Aristeas the Exegete",
+          "Aris"
         ]
       },
-      "REV": {
-        "defaultName": "Apocalypse",
-        "defaultAbbreviation": "Apo",
+      "ABL": {
+        "defaultName": "Aristobulus",
+        "defaultAbbreviation": "Aristb",
         "inputFields": [
-          "Apocalypse",
-          "Apo",
-          "Apclypse",
-          "Apclpse"
+          "Aristobulus",
+          "Aristb"
         ]
       },
-      "BAR": {
-        "defaultName": "Baruch",
-        "defaultAbbreviation": "Bar",
+      "ART": {
+        "defaultName": "Artapanus",
+        "defaultAbbreviation": "Artap",
         "inputFields": [
-          "Baruch",
-          "Bar",
-          "Brch"
+          "Artapanus",
+          "Artap"
         ]
       },
-      "DNG": {
-        "defaultName": "Daniel (Greek)",
-        "defaultAbbreviation": "Dn(Gk)",
+      "CLM": {
+        "defaultName": "Cleodemus Malchus",
+        "defaultAbbreviation": "CleoMalch",
         "inputFields": [
-          "Daniel (Greek)",
-          "Dn(Gk)",
-          "DnlGk"
+          "Cleodemus Malchus",
+          "CleoMalch"
         ]
       },
-      "PAZ": {
-        "defaultName": "Prayer of Azariah",
-        "defaultAbbreviation": "PrAz",
+      "ELM": {
+        "defaultName": "Eldad and Modad",
+        "defaultAbbreviation": "EldMod",
         "inputFields": [
-          "Prayer of Azariah",
-          "PrAz",
-          "Pryr Azrh"
+          "Eldad and Modad",
+          "EldMod"
         ]
       },
-      "BEL": {
-        "defaultName": "Bel and the Dragon",
-        "defaultAbbreviation": "Bel",
+      "HRE": {
+        "defaultName": "History of the Rechabites",
+        "defaultAbbreviation": "HistRech",
         "inputFields": [
-          "Bel and the Dragon",
-          "Bel",
-          "BaD"
+          "History of the Rechabites",
+          "HistRech"
         ]
       },
-      "SUS": {
-        "defaultName": "Susanna",
-        "defaultAbbreviation": "Sus",
+      "LPR": {
+        "defaultName": "Lives of the Prophets",
+        "defaultAbbreviation": "LivesProphs",
         "inputFields": [
-          "Susanna",
-          "Sus",
-          "Ssnn"
+          "Lives of the Prophets",
+          "LivesProphs"
         ]
       },
-      "GES": {
-        "defaultName": "1 Esdras",
-        "defaultAbbreviation": "1 Esd",
+      "EPL": {
+        "defaultName": "Philo the Epic Poet",
+        "defaultAbbreviation": "Philo",
         "inputFields": [
-          "1 Esdras",
-          "1 Esd",
-          "1 Esdrs"
+          "Philo the Epic Poet",
+          "Philo"
         ]
       },
-      "LES": {
-        "defaultName": "2 Esdras",
-        "defaultAbbreviation": "2 Esd",
+      "TEO": {
+        "defaultName": "Theodotus",
+        "defaultAbbreviation": "Theod",
         "inputFields": [
-          "2 Esdras",
-          "2 Esd",
-          "2 Esdrs"
+          "Theodotus",
+          "Theod"
         ]
       },
-      "ESG": {
-        "defaultName": "Esther (Greek)",
-        "defaultAbbreviation": "EsGk",
+      "TSA": {
+        "defaultName": "Testament of Asher",
+        "defaultAbbreviation": "TstAsher",
         "inputFields": [
-          "Esther (Greek)",
-          "EsGk",
-          "EstGk"
+          "Testament of Asher",
+          "TstAsher"
         ]
       },
-      "LJE": {
-        "defaultName": "Epistle of Jeremiah",
-        "defaultAbbreviation": "EpJer",
+      "TSB": {
+        "defaultName": "Testament of Benjamin",
+        "defaultAbbreviation": "TstBenj",
         "inputFields": [
-          "Epistle of Jeremiah",
-          "EpJer",
-          "Ep Jeremiah",
-          "Ep Jrm",
-          "Ltr Jeremiah",
-          "Ltr Jrm"
+          "Testament of Benjamin",
+          "TstBenj"
         ]
       },
-      "JDT": {
-        "defaultName": "Judith",
-        "defaultAbbreviation": "Jdt",
+      "TSD": {
+        "defaultName": "Testament of Dan",
+        "defaultAbbreviation": "TstDan",
         "inputFields": [
-          "Judith",
-          "Jdt",
-          "Jdth"
+          "Testament of Dan",
+          "TstDan"
         ]
       },
-      "MAN": {
-        "defaultName": "Prayer of Manasses",
-        "defaultAbbreviation": "Man",
+      "TSG": {
+        "defaultName": "Testament of Gad",
+        "defaultAbbreviation": "TstGad",
         "inputFields": [
-          "Prayer of Manasses",
-          "Man",
-          "Manasses",
-          "Manasseh",
-          "Mnss",
-          "Mnsh",
-          "Pryr Man"
+          "Testament of Gad",
+          "TstGad"
         ]
       },
-      "SIR": {
-        "defaultName": "Sirach",
-        "defaultAbbreviation": "Sir",
+      "TSI": {
+        "defaultName": "Testament of Issachar",
+        "defaultAbbreviation": "TstIssa",
         "inputFields": [
-          "Sirach",
-          "Sir",
-          "Srch"
+          "Testament of Issachar",
+          "TstIssa"
         ]
       },
-      "TOB": {
-        "defaultName": "Tobit",
-        "defaultAbbreviation": "Tob",
+      "TSJ": {
+        "defaultName": "Testament of Joseph",
+        "defaultAbbreviation": "TstJoseph",
         "inputFields": [
-          "Tobit",
-          "Tob",
-          "Tobias",
-          "Tbt",
-          "Tbs"
+          "Testament of Joseph",
+          "TstJoseph"
         ]
       },
-      "WIS": {
-        "defaultName": "Wisdom of Solomon",
-        "defaultAbbreviation": "Wis",
+      "TSY": {
+        "defaultName": "Testament of Judah",
+        "defaultAbbreviation": "TstJudah",
         "inputFields": [
-          "Wisdom of Solomon",
-          "Wis",
-          "Wsdm of Slmn"
+          "Testament of Judah",
+          "TstJudah"
         ]
       },
-      "MA1": {
-        "defaultName": "1 Maccabees",
-        "defaultAbbreviation": "1 Mac",
+      "TSL": {
+        "defaultName": "Testament of Levi",
+        "defaultAbbreviation": "TstLevi",
         "inputFields": [
-          "1 Maccabees",
-          "1 Mac",
-          "1 Mccbs",
-          "1 Mcbs"
+          "Testament of Levi",
+          "TstLevi"
         ]
       },
-      "MA2": {
-        "defaultName": "2 Maccabees",
-        "defaultAbbreviation": "2 Mac",
+      "TSN": {
+        "defaultName": "Testament of Naphtali",
+        "defaultAbbreviation": "TstNaph",
         "inputFields": [
-          "2 Maccabees",
-          "2 Mac",
-          "2 Mccbs",
-          "2 Mcbs"
+          "Testament of Naphtali",
+          "TstNaph"
         ]
       },
-      "MA3": {
-        "defaultName": "3 Maccabees",
-        "defaultAbbreviation": "3 Mac",
+      "TSR": {
+        "defaultName": "Testament of Reuben",
+        "defaultAbbreviation": "TstReub",
         "inputFields": [
-          "3 Maccabees",
-          "3 Mac",
-          "3 Mccbs",
-          "3 Mcbs"
+          "Testament of Reuben",
+          "TstReub"
         ]
       },
-      "MA4": {
-        "defaultName": "4 Maccabees",
-        "defaultAbbreviation": "4 Mac",
+      "TSS": {
+        "defaultName": "Testament of Simeon",
+        "defaultAbbreviation": "TstSimeon",
         "inputFields": [
-          "4 Maccabees",
-          "4 Mac",
-          "4 Mccbs",
-          "4 Mcbs"
+          "Testament of Simeon",
+          "TstSimeon"
         ]
       },
-      "MA5": {
-        "defaultName": "5 Maccabees",
-        "defaultAbbreviation": "5 Mac",
+      "TSZ": {
+        "defaultName": "Testament of Zebulun",
+        "defaultAbbreviation": "TstZeb",
         "inputFields": [
-          "5 Maccabees",
-          "5 Mac",
-          "5 Mccbs",
-          "5 Mcbs"
+          "Testament of Zebulun",
+          "TstZeb"
         ]
       },
-      "PSB": {
-        "defaultName": "Psalms B",
-        "defaultAbbreviation": "LitPs",
+      "JJW": {
+        "defaultName": "Josephus Jewish War VI",
+        "defaultAbbreviation": "JosJewWarVI",
         "inputFields": [
-          "Psalms B",
-          "LitPs",
-          "Metrical Psalms",
-          "Mtrca Pslms",
-          "Alternative Psalms",
-          "Alt Psalms",
-          "Alt Pslms",
-          "Lit Psalms",
-          "Lit Pslms"
+          "Josephus Jewish War VI",
+          "JosJewWarVI"
         ]
       },
-      "PS2": {
-        "defaultName": "Psalm 151",
-        "defaultAbbreviation": "Ps151",
+      "SHM": {
+        "defaultName": "Shepherd of Hermas Mandates",
+        "defaultAbbreviation": "ShepHerMand",
         "inputFields": [
-          "Psalm 151",
-          "Ps151",
-          "Pslm 151"
+          "Shepherd of Hermas Mandates",
+          "ShepHerMand"
         ]
       },
-      "PS3": {
-        "defaultName": "Syriac Psalms",
-        "defaultAbbreviation": "SyrPs",
+      "SHS": {
+        "defaultName": "Shepherd of Hermas Similitudes",
+        "defaultAbbreviation": "ShepHerSim",
         "inputFields": [
-          "Syriac Psalms",
-          "SyrPs",
-          "Syr Pslms"
+          "Shepherd of Hermas Similitudes",
+          "ShepHerSim"
         ]
       },
-      "PSS": {
-        "defaultName": "Psalms of Solomon",
-        "defaultAbbreviation": "AddPs",
+      "SHV": {
+        "defaultName": "Shepherd of Hermas Visions",
+        "defaultAbbreviation": "ShepHerVis",
         "inputFields": [
-          "Psalms of Solomon",
-          "AddPs",
-          "Ps Sol",
-          "Slmn Pslms"
+          "Shepherd of Hermas Visions",
+          "ShepHerVis"
         ]
       },
-      "LAO": {
-        "defaultName": "Laodiceans",
-        "defaultAbbreviation": "Lao",
+      "IGE": {
+        "defaultName": "Ignatius to the Ephesians",
+        "defaultAbbreviation": "IgnEph",
         "inputFields": [
-          "Laodiceans",
-          "Lao",
-          "Eps Lao",
-          "Ltr Lao"
+          "Ignatius to the Ephesians",
+          "IgnEph"
         ]
       },
-      "ODE": {
-        "defaultName": "Odes",
-        "defaultAbbreviation": "Ode",
+      "IGM": {
+        "defaultName": "Ignatius to the Magnesians",
+        "defaultAbbreviation": "IgnMagn",
         "inputFields": [
-          "Odes",
-          "Ode",
-          "Odae"
+          "Ignatius to the Magnesians",
+          "IgnMagn"
         ]
       },
-      "PSO": {
-        "defaultName": "Prayer of Solomon",
-        "defaultAbbreviation": "PrSol",
+      "IGT": {
+        "defaultName": "Ignatius to the Trallians",
+        "defaultAbbreviation": "IgnTrall",
         "inputFields": [
-          "Prayer of Solomon",
-          "PrSol",
-          "Pryr Slm"
+          "Ignatius to the Trallians",
+          "IgnTrall"
         ]
       },
-      "PJE": {
-        "defaultName": "Prayer of Jeremiah",
-        "defaultAbbreviation": "PrJer",
+      "IGR": {
+        "defaultName": "Ignatius to the Romans",
+        "defaultAbbreviation": "IgnRom",
         "inputFields": [
-          "Prayer of Jeremiah",
-          "PrJer",
-          "Pryr Jeremiah"
+          "Ignatius to the Romans",
+          "IgnRom"
         ]
       },
-      "WSI": {
-        "defaultName": "Words of Sirach",
-        "defaultAbbreviation": "WrdsSir",
+      "IGP": {
+        "defaultName": "Ignatius to the Philadelphians",
+        "defaultAbbreviation": "IgnPhp",
         "inputFields": [
-          "Words of Sirach",
-          "WrdsSir",
-          "Wrds Sirach",
-          "Wrds Srch"
+          "Ignatius to the Philadelphians",
+          "IgnPhp"
         ]
       },
-      "COP": {
-        "defaultName": "Epistle of Corinthians to Paul",
-        "defaultAbbreviation": "EpCor",
+      "IGS": {
+        "defaultName": "Ignatius to the Smyrnaeans",
+        "defaultAbbreviation": "IgnSmyrn",
         "inputFields": [
-          "Epistle of Corinthians to Paul",
-          "EpCor",
-          "Ep Corinthians",
-          "Ep Crnthns",
-          "Ltr Corinthians",
-          "Ltr Crnthns"
+          "Ignatius to the Smyrnaeans",
+          "IgnSmyrn"
         ]
       },
-      "CO3": {
-        "defaultName": "3 Corinthians",
-        "defaultAbbreviation": "3 Cor",
+      "IGC": {
+        "defaultName": "Ignatius to Polycarp",
+        "defaultAbbreviation": "IgnPolyc",
         "inputFields": [
-          "3 Corinthians",
-          "3 Cor",
-          "3 Crnthns"
+          "Ignatius to Polycarp",
+          "IgnPolyc"
         ]
       },
-      "EUT": {
-        "defaultName": "Prayer of Euthalius",
-        "defaultAbbreviation": "Eut",
+      "PCP": {
+        "defaultName": "Polycarp to the Philippians",
+        "defaultAbbreviation": "PolycPhp",
         "inputFields": [
-          "Prayer of Euthalius",
-          "Eut",
-          "Pr Eut"
+          "Polycarp to the Philippians",
+          "PolycPhp"
         ]
       },
-      "DOJ": {
-        "defaultName": "Dormition of John",
-        "defaultAbbreviation": "DoJ",
+      "MPC": {
+        "defaultName": "Martydom of Polycarp",
+        "defaultAbbreviation": "MartyrPolyc",
         "inputFields": [
-          "Dormition of John",
-          "DoJ",
-          "Drm Jhn",
-          "Drm Jn"
+          "Martydom of Polycarp",
+          "MartyrPolyc"
         ]
       },
-      "TTP": {
-        "defaultName": "Testaments of the Twelve Patriarchs",
-        "defaultAbbreviation": "Tst12",
+      "DIO": {
+        "defaultName": "Diognetus",
+        "defaultAbbreviation": "Diogn",
         "inputFields": [
-          "Testaments of the Twelve Patriarchs",
-          "Tst12",
-          "Tst 12P",
-          "Tst Twelve"
+          "Diognetus",
+          "Diogn"
         ]
       },
-      "JUB": {
-        "defaultName": "Jubilees",
-        "defaultAbbreviation": "Jub",
+      "APC": {
+        "defaultName": "Apostles' Creed",
+        "defaultAbbreviation": "AposCreed",
         "inputFields": [
-          "Jubilees",
-          "Jub",
-          "Jbls"
+          "Apostles' Creed",
+          "AposCreed"
         ]
       },
-      "ENO": {
-        "defaultName": "Enoch",
-        "defaultAbbreviation": "Eno",
+      "FOP": {
+        "defaultName": "Fragments of Papias",
+        "defaultAbbreviation": "FragPapias",
         "inputFields": [
-          "Enoch",
-          "Eno",
-          "Ench",
-          "1 Enoch",
-          "1 Ench"
+          "Fragments of Papias",
+          "FragPapias"
         ]
       },
-      "EN2": {
-        "defaultName": "2 Enoch",
-        "defaultAbbreviation": "2 Eno",
+      "ROE": {
+        "defaultName": "Reliques of the Elders",
+        "defaultAbbreviation": "RelicsElders",
         "inputFields": [
-          "2 Enoch",
-          "2 Eno",
-          "2 Ench"
+          "Reliques of the Elders",
+          "RelicsElders"
         ]
       },
-      "EZA": {
-        "defaultName": "Apocalypse of Ezra",
-        "defaultAbbreviation": "ApEz",
+      "FOQ": {
+        "defaultName": "Fragment of Quadratus",
+        "defaultAbbreviation": "FragQuadr",
         "inputFields": [
-          "Apocalypse of Ezra",
-          "ApEz",
-          "Ap Ezra"
+          "Fragment of Quadratus",
+          "FragQuadr"
         ]
       },
-      "EZ5": {
-        "defaultName": "5 Ezra",
-        "defaultAbbreviation": "5 Ezr",
+      "TAT": {
+        "defaultName": "Tatian / Tatian's Diatessaron / Diatessaron",
+        "defaultAbbreviation": "Tatian",
         "inputFields": [
-          "5 Ezra",
-          "5 Ezr",
-          "5 Esdras"
+          "Tatian / Tatian's Diatessaron / Diatessaron",
+          "Tatian"
         ]
       },
-      "EZ6": {
-        "defaultName": "6 Ezra",
-        "defaultAbbreviation": "6 Ezr",
+      "PRF": {
+        "defaultName": "Preface",
+        "defaultAbbreviation": "Prf",
         "inputFields": [
-          "6 Ezra",
-          "6 Ezr",
-          "6 Esdras"
+          "Preface",
+          "Prf",
+          "Pre"
         ]
       },
-      "REP": {
-        "defaultName": "Reproof",
-        "defaultAbbreviation": "Rep",
+      "ACK": {
+        "defaultName": "Acknowledgements",
+        "defaultAbbreviation": "Ack",
         "inputFields": [
-          "Reproof",
-          "Rep",
-          "Rprf"
+          "Acknowledgements",
+          "Ack"
         ]
       },
-      "MQ1": {
-        "defaultName": "1 Meqabyan",
-        "defaultAbbreviation": "1 Meq",
+      "INT": {
+        "defaultName": "Introduction",
+        "defaultAbbreviation": "Intr",
         "inputFields": [
-          "1 Meqabyan",
-          "1 Meq",
-          "1 Mqbyn",
-          "1 Makabian",
-          "1 Mkbn",
-          "Mekabis of Benjamin",
-          "Mekabis Benjamin",
-          "Mkbs Bnjmn"
+          "Introduction",
+          "Intr"
         ]
       },
-      "MQ2": {
-        "defaultName": "2 Meqabyan",
-        "defaultAbbreviation": "2 Meq",
+      "FRT": {
+        "defaultName": "Front Matter",
+        "defaultAbbreviation": "FrtMatter",
         "inputFields": [
-          "2 Meqabyan",
-          "2 Meq",
-          "2 Mqbyn",
-          "2 Makabian",
-          "2 Mkbn",
-          "Mekabis of Moab",
-          "Mekabis Moab",
-          "Mkbs Mb"
+          "Front Matter",
+          "FrtMatter",
+          "FM"
         ]
       },
-      "MQ3": {
-        "defaultName": "3 Meqabyan",
-        "defaultAbbreviation": "3 Meq",
+      "TOC": {
+        "defaultName": "Table of Contents",
+        "defaultAbbreviation": "ToC",
         "inputFields": [
-          "3 Meqabyan",
-          "3 Meq",
-          "3 Mqbyn",
-          "3 Makabian",
-          "3 Mkbn"
+          "Table of Contents",
+          "ToC"
         ]
       },
-      "BA2": {
-        "defaultName": "2 Baruch",
-        "defaultAbbreviation": "2 Bar",
+      "BAK": {
+        "defaultName": "Back Matter",
+        "defaultAbbreviation": "Back",
         "inputFields": [
-          "2 Baruch",
-          "2 Bar",
-          "2 Brch",
-          "Apocalypse of Baruch",
-          "Apoc of Baruch",
-          "Apoc Baruch"
+          "Back Matter",
+          "Back",
+          "Bck"
         ]
       },
-      "BA3": {
-        "defaultName": "3 Baruch",
-        "defaultAbbreviation": "3 Bar",
+      "GLS": {
+        "defaultName": "Glossary",
+        "defaultAbbreviation": "Gloss",
         "inputFields": [
-          "3 Baruch",
-          "3 Bar",
-          "3 Brch"
+          "Glossary",
+          "Gloss",
+          "Gls"
         ]
       },
-      "BA4": {
-        "defaultName": "4 Baruch",
-        "defaultAbbreviation": "4 Bar",
+      "CNC": {
+        "defaultName": "Concordance",
+        "defaultAbbreviation": "Concord",
         "inputFields": [
-          "4 Baruch",
-          "4 Bar",
-          "4 Brch",
-          "Paralipomenon of Jeremiah",
-          "Prlp of Jrmh",
-          "Rest of Words of Baruch"
+          "Concordance",
+          "Concord",
+          "Ccd"
         ]
       },
-      "LBA": {
-        "defaultName": "Epistle of Baruch",
-        "defaultAbbreviation": "EpBar",
+      "TPC": {
+        "defaultName": "Topical Concordance",
+        "defaultAbbreviation": "TopicConcord",
         "inputFields": [
-          "Epistle of Baruch",
-          "EpBar",
-          "Ep Baruch",
-          "Ep Brch",
-          "Epi Baruch",
-          "Epis Baruch",
-          "Letter of Baruch",
-          "Ltr of Baruch",
-          "Ltr Baruch"
+          "Topical Concordance",
+          "TopicConcord",
+          "TpclCcd"
         ]
       },
-      "LJB": {
-        "defaultName": "Epistle of Jeremiah (with Baruch)",
-        "defaultAbbreviation": "EpJer",
+      "MAP": {
+        "defaultName": "Maps",
+        "defaultAbbreviation": "Maps",
         "inputFields": [
-          "Epistle of Jeremiah (with Baruch)",
-          "EpJer",
-          "Ep Jer"
+          "Maps",
+          "Mps"
         ]
       },
-      "CL1": {
-        "defaultName": "1 Clement",
-        "defaultAbbreviation": "1 Cle",
+      "IXN": {
+        "defaultName": "Names Index",
+        "defaultAbbreviation": "NameIdx",
         "inputFields": [
-          "1 Clement",
-          "1 Cle",
-          "1 Clmnt"
+          "Names Index",
+          "NameIdx",
+          "IdxNames"
         ]
       },
-      "CL2": {
-        "defaultName": "2 Clement",
-        "defaultAbbreviation": "2 Cle",
+      "IXP": {
+        "defaultName": "Places Index",
+        "defaultAbbreviation": "PlaceIdx",
         "inputFields": [
-          "2 Clement",
-          "2 Cle",
-          "2 Clmnt"
+          "Places Index",
+          "PlaceIdx",
+          "IdxPlaces"
         ]
       },
-      "SHE": {
-        "defaultName": "Shepherd of Hermas",
-        "defaultAbbreviation": "Her",
+      "IXT": {
+        "defaultName": "Thematic Index",
+        "defaultAbbreviation": "ThemeIdx",
         "inputFields": [
-          "Shepherd of Hermas",
-          "Her",
-          "Hermas",
-          "Hrms",
-          "Shep Hermas"
+          "Thematic Index",
+          "ThemeIdx",
+          "IdxThemes"
         ]
       },
-      "DID": {
-        "defaultName": "Didache",
-        "defaultAbbreviation": "Did",
+      "XXA": {
+        "defaultName": "Extra Book A",
+        "defaultAbbreviation": "ExtraA",
         "inputFields": [
-          "Didache",
-          "Did",
-          "Ddch"
+          "Extra Book A",
+          "ExtraA"
         ]
       },
-      "MOS": {
-        "defaultName": "Moses",
-        "defaultAbbreviation": "Mos",
+      "XXB": {
+        "defaultName": "Extra Book B",
+        "defaultAbbreviation": "ExtraB",
         "inputFields": [
-          "Moses",
-          "Mos",
-          "Mss"
+          "Extra Book B",
+          "ExtraB"
         ]
       },
-      "SAM": {
-        "defaultName": "Samuel",
-        "defaultAbbreviation": "Sam",
+      "XXC": {
+        "defaultName": "Extra Book C",
+        "defaultAbbreviation": "ExtraC",
         "inputFields": [
-          "Samuel",
-          "Sam",
-          "Sml"
+          "Extra Book C",
+          "ExtraC"
         ]
       },
-      "KGS": {
-        "defaultName": "Kings",
-        "defaultAbbreviation": "Kgs",
+      "XXD": {
+        "defaultName": "Extra Book D",
+        "defaultAbbreviation": "ExtraD",
         "inputFields": [
-          "Kings",
-          "Kgs",
-          "Kngs"
+          "Extra Book D",
+          "ExtraD"
         ]
       },
-      "CHR": {
-        "defaultName": "Chronicles",
-        "defaultAbbreviation": "Chr",
+      "XXE": {
+        "defaultName": "Extra Book E",
+        "defaultAbbreviation": "ExtraE",
         "inputFields": [
-          "Chronicles",
-          "Chr",
-          "Chrncls"
+          "Extra Book E",
+          "ExtraE"
         ]
       },
-      "EZN": {
-        "defaultName": "Ezra-Nehemiah",
-        "defaultAbbreviation": "EzNeh",
+      "XXF": {
+        "defaultName": "Extra Book F",
+        "defaultAbbreviation": "ExtraF",
         "inputFields": [
-          "Ezra-Nehemiah",
-          "EzNeh",
-          "Ezr Neh"
+          "Extra Book F",
+          "ExtraF"
         ]
       },
-      "P12": {
-        "defaultName": "Twelve Prophets",
-        "defaultAbbreviation": "TwProp",
+      "XXG": {
+        "defaultName": "Extra Book G",
+        "defaultAbbreviation": "ExtraG",
         "inputFields": [
-          "Twelve Prophets",
-          "TwProp",
-          "12 Prophets"
+          "Extra Book G",
+          "ExtraG"
         ]
       }
     }
   ],
-  "dut_traditional": [
+  "eng_traditional": [
     {
       "OT": {
         "includedBooks": [
@@ -7324,13 +7055,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-DUT-Ancien Testament",
-        "defaultAbbreviation": "XXX-DUT-AT",
+        "defaultName": "Old Testament",
+        "defaultAbbreviation": "OT",
         "inputFields": [
-          "XXX-DUT-Ancien Testament",
-          "XXX-DUT-AT",
-          "XXX-DUT-L'Ancien Testament",
-          "XXX-DUT-L'Ancien Tstmnt"
+          "Old Testament",
+          "OT",
+          "Old Tstmnt"
         ]
       },
       "PT": {
@@ -7341,16 +7071,16 @@
           "NUM",
           "DEU"
         ],
-        "defaultName": "XXX-DUT-Pentateuch",
-        "defaultAbbreviation": "XXX-DUT-Pent",
+        "defaultName": "Pentateuch",
+        "defaultAbbreviation": "Pent",
         "inputFields": [
-          "XXX-DUT-Pentateuch",
-          "XXX-DUT-Pnttch",
-          "XXX-DUT-Torah",
-          "XXX-DUT-Trh",
-          "XXX-DUT-Moses' books",
-          "XXX-DUT-Books of Moses",
-          "XXX-DUT-Bks of Moses"
+          "Pentateuch",
+          "Pnttch",
+          "Torah",
+          "Trh",
+          "Moses' books",
+          "Books of Moses",
+          "Bks of Moses"
         ]
       },
       "MJ": {
@@ -7362,12 +7092,12 @@
           "DAN",
           "BAR"
         ],
-        "defaultName": "XXX-DUT-Major Prophets",
-        "defaultAbbreviation": "XXX-DUT-MajProps",
+        "defaultName": "Major Prophets",
+        "defaultAbbreviation": "MajProps",
         "inputFields": [
-          "XXX-DUT-Major Prophets",
-          "XXX-DUT-MajProps",
-          "XXX-DUT-Mjr Prphts"
+          "Major Prophets",
+          "MajProps",
+          "Mjr Prphts"
         ]
       },
       "MN": {
@@ -7385,12 +7115,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-DUT-Minor Prophets",
-        "defaultAbbreviation": "XXX-DUT-MinProp",
+        "defaultName": "Minor Prophets",
+        "defaultAbbreviation": "MinProp",
         "inputFields": [
-          "XXX-DUT-Minor Prophets",
-          "XXX-DUT-MinProp",
-          "XXX-DUT-Mnr Prphts"
+          "Minor Prophets",
+          "MinProp",
+          "Mnr Prphts"
         ]
       },
       "NT": {
@@ -7423,13 +7153,12 @@
           "JDE",
           "REV"
         ],
-        "defaultName": "XXX-DUT-Nouveau Testament",
-        "defaultAbbreviation": "XXX-DUT-NT",
+        "defaultName": "New Testament",
+        "defaultAbbreviation": "NT",
         "inputFields": [
-          "XXX-DUT-Nouveau Testament",
-          "XXX-DUT-NT",
-          "XXX-DUT-Le Nouveau Testament",
-          "XXX-DUT-Nv Tstmnt"
+          "New Testament",
+          "NT",
+          "Nw Tstmnt"
         ]
       },
       "GO": {
@@ -7439,11 +7168,11 @@
           "LUK",
           "JHN"
         ],
-        "defaultName": "XXX-DUT-Gospels",
-        "defaultAbbreviation": "XXX-DUT-Gosp",
+        "defaultName": "Gospels",
+        "defaultAbbreviation": "Gosp",
         "inputFields": [
-          "XXX-DUT-Gospels",
-          "XXX-DUT-Gspls"
+          "Gospels",
+          "Gspls"
         ]
       },
       "PL": {
@@ -7463,73 +7192,69 @@
           "PHM",
           "HEB"
         ],
-        "defaultName": "XXX-DUT-Pauline Epistles",
-        "defaultAbbreviation": "XXX-DUT-EpPaul",
+        "defaultName": "Pauline Epistles",
+        "defaultAbbreviation": "EpPaul",
         "inputFields": [
-          "XXX-DUT-Pauline Epistles",
-          "XXX-DUT-EpPaul",
-          "XXX-DUT-Paul's epistles",
-          "XXX-DUT-Epistles of Paul",
-          "XXX-DUT-Ep of Paul",
-          "XXX-DUT-Letters of Paul",
-          "XXX-DUT-Ltrs of Paul",
-          "XXX-DUT-Paul's letters",
-          "XXX-DUT-Paul's ltrs"
+          "Pauline Epistles",
+          "EpPaul",
+          "Paul's epistles",
+          "Epistles of Paul",
+          "Ep of Paul",
+          "Letters of Paul",
+          "Ltrs of Paul",
+          "Paul's letters",
+          "Paul's ltrs"
         ]
       }
     },
     {
       "1 ": [
         "I ",
-        "XXX-DUT-Premi\u00e8re ",
-        "XXX-DUT-Premiere ",
-        "XXX-DUT-Prmre ",
+        "First ",
+        "Frst ",
         "1st ",
         "One "
       ],
       "2 ": [
         "II ",
-        "XXX-DUT-Seconde ",
-        "XXX-DUT-Scnde ",
+        "Second ",
+        "Scnd ",
         "2nd ",
         "Two "
       ],
       "3 ": [
         "III ",
-        "XXX-DUT-Troisi\u00e8me ",
-        "XXX-DUT-Troisieme ",
-        "XXX-DUT-Trsme ",
+        "Third ",
+        "Thrd ",
         "3rd ",
         "Three "
       ],
       "4 ": [
         "IV ",
-        "XXX-DUT-Quatri\u00e8me ",
-        "XXX-DUT-Quatrieme ",
-        "XXX-DUT-Qutrme ",
-        "XXX-DUT-Qtrme ",
+        "Fourth ",
+        "Forth ",
+        "Frth ",
         "4th ",
         "Four "
       ],
       "5 ": [
         "V ",
-        "XXX-DUT-Cinqui\u00e8me ",
-        "XXX-DUT-Cinquieme ",
-        "XXX-DUT-Cnqme ",
+        "Fifth ",
+        "Ffth ",
         "5th ",
         "Five "
       ],
       "6 ": [
         "VI ",
-        "XXX-DUT-Sixth ",
-        "XXX-DUT-Sxth ",
+        "Sixth ",
+        "Sxth ",
         "6th ",
         "Six "
       ],
       "Saint ": [
-        "XXX-DUT-Snt ",
-        "XXX-DUT-St ",
-        "XXX-DUT-Snt. ",
+        "Snt ",
+        "St ",
+        "Snt. ",
         "St. "
       ]
     },
@@ -7540,7 +7265,6 @@
         "inputFields": [
           "Genesis",
           "Gen",
-          "Genes",
           "Gnss",
           "1 Moses",
           "1 Mss"
@@ -7563,52 +7287,49 @@
         "inputFields": [
           "Leviticus",
           "Lev",
-          "Levitic",
           "Lvtcs",
           "3 Moses",
           "3 Mss"
         ]
       },
       "NUM": {
-        "defaultName": "Numeri",
+        "defaultName": "Numbers",
         "defaultAbbreviation": "Num",
         "inputFields": [
-          "Numeri",
+          "Numbers",
           "Num",
-          "Nmr",
+          "Nmbrs",
           "4 Moses",
           "4 Mss"
         ]
       },
       "DEU": {
-        "defaultName": "Deuteronomium",
+        "defaultName": "Deuteronomy",
         "defaultAbbreviation": "Deu",
         "inputFields": [
-          "Deuteronomium",
+          "Deuteronomy",
           "Deu",
-          "Deuteronomum",
-          "Dtrnmm",
+          "Dtrnmy",
           "5 Moses",
           "5 Mss"
         ]
       },
       "JOS": {
-        "defaultName": "Jozua",
-        "defaultAbbreviation": "Joz",
+        "defaultName": "Joshua",
+        "defaultAbbreviation": "Josh",
         "inputFields": [
-          "Jozua",
-          "Joz",
-          "Jzua"
+          "Joshua",
+          "Josh",
+          "Jsh"
         ]
       },
       "JDG": {
-        "defaultName": "Richteren",
-        "defaultAbbreviation": "Rich",
+        "defaultName": "Judges",
+        "defaultAbbreviation": "Jdg",
         "inputFields": [
-          "Richteren",
-          "Rich",
-          "Rchteren",
-          "Rchtrn"
+          "Judges",
+          "Jdg",
+          "Jdgs"
         ]
       },
       "RUT": {
@@ -7626,7 +7347,8 @@
         "inputFields": [
           "1 Samuel",
           "1 Sam",
-          "1 Sml"
+          "1 Sml",
+          "1 Sl"
         ]
       },
       "SA2": {
@@ -7635,41 +7357,50 @@
         "inputFields": [
           "2 Samuel",
           "2 Sam",
-          "2 Sml"
+          "2 Sml",
+          "2 Sl"
         ]
       },
       "KI1": {
-        "defaultName": "1 Koningen",
-        "defaultAbbreviation": "1 Kn",
+        "defaultName": "1 Kings",
+        "defaultAbbreviation": "1 Kgs",
         "inputFields": [
-          "1 Koningen",
-          "1 Kn"
+          "1 Kings",
+          "1 Kgs",
+          "1 Kngs",
+          "1 Ks"
         ]
       },
       "KI2": {
-        "defaultName": "2 Koningen",
-        "defaultAbbreviation": "2 Kn",
+        "defaultName": "2 Kings",
+        "defaultAbbreviation": "2 Kgs",
         "inputFields": [
-          "2 Koningen",
-          "2 Kn"
+          "2 Kings",
+          "2 Kgs",
+          "2 Kngs",
+          "2 Ks"
         ]
       },
       "CH1": {
-        "defaultName": "1 Kronieken",
-        "defaultAbbreviation": "1 Kro",
+        "defaultName": "1 Chronicles",
+        "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "1 Kronieken",
-          "1 Kro",
-          "1 Krnkn"
+          "1 Chronicles",
+          "1 Chr",
+          "1 Chrnc",
+          "1 Cronic",
+          "1 Crnc"
         ]
       },
       "CH2": {
-        "defaultName": "2 Kronieken",
-        "defaultAbbreviation": "2 Kro",
+        "defaultName": "2 Chronicles",
+        "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "2 Kronieken",
-          "2 Kro",
-          "2 Krnkn"
+          "2 Chronicles",
+          "2 Chr",
+          "2 Chrnc",
+          "2 Cronic",
+          "2 Crnc"
         ]
       },
       "EZR": {
@@ -7681,12 +7412,12 @@
         ]
       },
       "NEH": {
-        "defaultName": "Nehemia",
+        "defaultName": "Nehemiah",
         "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Nehemia",
+          "Nehemiah",
           "Neh",
-          "Nhmia"
+          "Nhmh"
         ]
       },
       "EST": {
@@ -7708,88 +7439,94 @@
         ]
       },
       "PSA": {
-        "defaultName": "Psalmen",
+        "defaultName": "Psalms",
         "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Psalmen",
+          "Psalms",
           "Psa",
-          "Pslmn"
+          "Pslms"
         ]
       },
       "PRO": {
-        "defaultName": "Spreuken",
-        "defaultAbbreviation": "Spr",
+        "defaultName": "Proverbs",
+        "defaultAbbreviation": "Pro",
         "inputFields": [
-          "Spreuken",
-          "Spr",
-          "Sprkn"
+          "Proverbs",
+          "Pro",
+          "Prvrbs",
+          "Prvbs"
         ]
       },
       "ECC": {
-        "defaultName": "Prediker",
+        "defaultName": "Ecclesiastes",
         "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Prediker",
+          "Ecclesiastes",
           "Ecc",
-          "Pre",
-          "Prdkr"
+          "Ecclsts",
+          "Qoheleth",
+          "Qhlth"
         ]
       },
       "SNG": {
-        "defaultName": "Hooglied",
-        "defaultAbbreviation": "Hoo",
+        "defaultName": "Song of Solomon",
+        "defaultAbbreviation": "Sng",
         "inputFields": [
-          "Hooglied",
-          "Hoo",
-          "Hgld",
-          "Hoglied"
+          "Song of Solomon",
+          "Sng",
+          "Sng of Slmn",
+          "Song of Songs",
+          "Sng of Sngs",
+          "SoS",
+          "SS",
+          "Canticle of Canticles",
+          "Cntcl of Cntcl",
+          "CoC",
+          "CC"
         ]
       },
       "ISA": {
-        "defaultName": "Jesaja",
-        "defaultAbbreviation": "Jes",
+        "defaultName": "Isaiah",
+        "defaultAbbreviation": "Isa",
         "inputFields": [
-          "Jesaja",
-          "Jes",
-          "Jsja"
+          "Isaiah",
+          "Isa"
         ]
       },
       "JER": {
-        "defaultName": "Jeremia",
+        "defaultName": "Jeremiah",
         "defaultAbbreviation": "Jer",
         "inputFields": [
-          "Jeremia",
+          "Jeremiah",
           "Jer",
-          "Jrmia"
+          "Jrmh"
         ]
       },
       "LAM": {
-        "defaultName": "Klaagliederen",
-        "defaultAbbreviation": "Kla",
+        "defaultName": "Lamentations",
+        "defaultAbbreviation": "Lam",
         "inputFields": [
-          "Klaagliederen",
-          "Kla",
-          "Klagliederen",
-          "Klgldrn"
+          "Lamentations",
+          "Lam",
+          "Lmnts",
+          "Lamentations of Jeremiah"
         ]
       },
       "EZE": {
-        "defaultName": "Ezechi\u00ebl",
+        "defaultName": "Ezekiel",
         "defaultAbbreviation": "Eze",
         "inputFields": [
-          "Ezechi\u00ebl",
+          "Ezekiel",
           "Eze",
-          "Ezechiel",
-          "Ezchl"
+          "Ezkl"
         ]
       },
       "DAN": {
-        "defaultName": "Dani\u00ebl",
+        "defaultName": "Daniel",
         "defaultAbbreviation": "Dan",
         "inputFields": [
-          "Dani\u00ebl",
-          "Dan",
           "Daniel",
+          "Dan",
           "Dnl"
         ]
       },
@@ -7799,14 +7536,13 @@
         "inputFields": [
           "Hosea",
           "Hos",
-          "Hsea"
+          "Hs"
         ]
       },
       "JOL": {
-        "defaultName": "Jo\u00ebl",
-        "defaultAbbreviation": "Jo\u00ebl",
+        "defaultName": "Joel",
+        "defaultAbbreviation": "Joel",
         "inputFields": [
-          "Jo\u00ebl",
           "Joel",
           "Jl"
         ]
@@ -7820,29 +7556,32 @@
         ]
       },
       "OBA": {
-        "defaultName": "Obadja",
-        "defaultAbbreviation": "Obad",
+        "defaultName": "Obadiah",
+        "defaultAbbreviation": "Oba",
         "inputFields": [
-          "Obadja",
-          "Obad",
-          "Obdja"
+          "Obadiah",
+          "Oba",
+          "Obdh"
         ]
       },
       "JNA": {
-        "defaultName": "Jona",
-        "defaultAbbreviation": "Jona",
+        "defaultName": "Jonah",
+        "defaultAbbreviation": "Jon",
         "inputFields": [
-          "Jona",
-          "Jna"
+          "Jonah",
+          "Jon",
+          "Jnh"
         ]
       },
       "MIC": {
-        "defaultName": "Micha",
+        "defaultName": "Micah",
         "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Micha",
+          "Micah",
           "Mic",
-          "Mcha"
+          "Mcah",
+          "Mich",
+          "Mch"
         ]
       },
       "NAH": {
@@ -7852,235 +7591,241 @@
           "Nahum",
           "Nah",
           "Nahm",
-          "Nhum"
+          "Nhum",
+          "Nhm"
         ]
       },
       "HAB": {
-        "defaultName": "Habakuk",
+        "defaultName": "Habakkuk",
         "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Habakuk",
+          "Habakkuk",
           "Hab",
-          "Hbakuk",
-          "Hbkk"
+          "Hbkk",
+          "Habbakkuk",
+          "Habbakuk",
+          "Habakuk",
+          "Hbbkk"
         ]
       },
       "ZEP": {
-        "defaultName": "Zefanja",
-        "defaultAbbreviation": "Zef",
+        "defaultName": "Zephaniah",
+        "defaultAbbreviation": "Zep",
         "inputFields": [
-          "Zefanja",
-          "Zef",
-          "Zfanja",
-          "Zfnja"
+          "Zephaniah",
+          "Zep",
+          "Zphnh",
+          "Zefaniah",
+          "Zfnh"
         ]
       },
       "HAG": {
-        "defaultName": "Hagga\u00ef",
+        "defaultName": "Haggai",
         "defaultAbbreviation": "Hag",
         "inputFields": [
-          "Hagga\u00ef",
-          "Hag",
           "Haggai",
-          "Haga\u00ef",
-          "Hagai",
-          "Hgga\u00ef",
-          "Hggai"
+          "Hag",
+          "Hgg",
+          "Hagai"
         ]
       },
       "ZEC": {
-        "defaultName": "Zacharia",
-        "defaultAbbreviation": "Zac",
+        "defaultName": "Zechariah",
+        "defaultAbbreviation": "Zec",
         "inputFields": [
-          "Zacharia",
-          "Zac",
-          "Zcharia",
-          "Zchria"
+          "Zechariah",
+          "Zec",
+          "Zchrh"
         ]
       },
       "MAL": {
-        "defaultName": "Maleachi",
+        "defaultName": "Malachi",
         "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Maleachi",
-          "Mal",
           "Malachi",
-          "Mleachi",
+          "Mal",
           "Mlchi"
         ]
       },
       "MAT": {
-        "defaultName": "Matthe\u00fcs",
+        "defaultName": "Matthew",
         "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Matthe\u00fcs",
+          "Matthew",
           "Mat",
-          "Mattheus",
-          "Mtthe\u00fcs",
-          "Mttheus",
-          "Mtths"
+          "Mtthw",
+          "Mthw",
+          "Mtw",
+          "Mw",
+          "Saint Matthew",
+          "Saint Mtthw",
+          "Saint Mthw",
+          "Saint Mtw",
+          "Saint Mw"
         ]
       },
       "MRK": {
-        "defaultName": "Markus",
+        "defaultName": "Mark",
         "defaultAbbreviation": "Mrk",
         "inputFields": [
-          "Markus",
+          "Mark",
           "Mrk",
-          "Mrkus",
-          "Mrks"
+          "Mk",
+          "Saint Mark",
+          "Saint Mrk",
+          "Saint Mk"
         ]
       },
       "LUK": {
-        "defaultName": "Lukas",
+        "defaultName": "Luke",
         "defaultAbbreviation": "Luk",
         "inputFields": [
-          "Lukas",
+          "Luke",
           "Luk",
-          "Lkas",
-          "Lks"
+          "Lke",
+          "Saint Luke",
+          "Saint Lk"
         ]
       },
       "JHN": {
-        "defaultName": "Johannes",
+        "defaultName": "John",
         "defaultAbbreviation": "Jhn",
         "inputFields": [
-          "Johannes",
+          "John",
           "Jhn",
-          "Johanes",
-          "Jhannes",
-          "Jhnnes"
+          "Jn",
+          "Saint John",
+          "Saint Jhn",
+          "Saint Jn"
         ]
       },
       "ACT": {
-        "defaultName": "Handelingen",
-        "defaultAbbreviation": "Hand",
+        "defaultName": "Acts",
+        "defaultAbbreviation": "Act",
         "inputFields": [
-          "Handelingen",
-          "Hand",
-          "Hndelingen",
-          "Hndlingen",
-          "Hndlngn"
+          "Acts",
+          "Act",
+          "Ats",
+          "Acts of the Apostles"
         ]
       },
       "ROM": {
-        "defaultName": "Romeinen",
+        "defaultName": "Romans",
         "defaultAbbreviation": "Rom",
         "inputFields": [
-          "Romeinen",
+          "Romans",
           "Rom",
-          "Rmeinen",
-          "Rmnn"
+          "Rmns"
         ]
       },
       "CO1": {
-        "defaultName": "1 Korinthe",
-        "defaultAbbreviation": "1 Kor",
-        "inputFields": [
-          "1 Korinthe",
-          "1 Kor",
-          "1 Krnthe"
+        "defaultName": "1 Corinthians",
+        "defaultAbbreviation": "1 Cor",
+        "inputFields": [
+          "1 Corinthians",
+          "1 Cor",
+          "1 Crnthns"
         ]
       },
       "CO2": {
-        "defaultName": "2 Korinthe",
-        "defaultAbbreviation": "2 Kor",
+        "defaultName": "2 Corinthians",
+        "defaultAbbreviation": "2 Cor",
         "inputFields": [
-          "2 Korinthe",
-          "2 Kor",
-          "2 Krnthe"
+          "2 Corinthians",
+          "2 Cor",
+          "2 Crnthns"
         ]
       },
       "GAL": {
-        "defaultName": "Galaten",
+        "defaultName": "Galatians",
         "defaultAbbreviation": "Gal",
         "inputFields": [
-          "Galaten",
+          "Galatians",
           "Gal",
-          "Glaten",
-          "Gltn"
+          "Gltns"
         ]
       },
       "EPH": {
-        "defaultName": "Efeze",
-        "defaultAbbreviation": "Efe",
+        "defaultName": "Ephesians",
+        "defaultAbbreviation": "Eph",
         "inputFields": [
-          "Efeze",
-          "Efe",
-          "Efze"
+          "Ephesians",
+          "Eph",
+          "Ephsns",
+          "Efsns"
         ]
       },
       "PHP": {
-        "defaultName": "Filippenzen",
-        "defaultAbbreviation": "Fil",
+        "defaultName": "Philippians",
+        "defaultAbbreviation": "Php",
         "inputFields": [
-          "Filippenzen",
-          "Fil",
-          "Flippenzen",
-          "Flppnzn",
-          "Filipenzen",
-          "Flipenzen",
-          "Flpnzn"
+          "Philippians",
+          "Php",
+          "Phlppns",
+          "Phlpns",
+          "Phillippians",
+          "Phillipians",
+          "Philipians",
+          "Flppns",
+          "Flpns"
         ]
       },
       "COL": {
-        "defaultName": "Kolossenzen",
-        "defaultAbbreviation": "Kol",
+        "defaultName": "Colossians",
+        "defaultAbbreviation": "Col",
         "inputFields": [
-          "Kolossenzen",
-          "Kol",
-          "Klossenzen",
-          "Klssenzen",
-          "Klssnzn",
-          "Kolosenzen",
-          "Klosenzen",
-          "Klsnzn"
+          "Colossians",
+          "Col",
+          "Clssns",
+          "Clsns",
+          "Cllssns",
+          "Collosians",
+          "Collossians",
+          "Colosians"
         ]
       },
       "TH1": {
-        "defaultName": "1 Thessalonicenzen",
+        "defaultName": "1 Thessalonians",
         "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "1 Thessalonicenzen",
+          "1 Thessalonians",
           "1 Thess",
-          "1 Thssalonicenzen",
-          "1 Thsslncnzn",
-          "1 Thesalonicenzen",
-          "1 Thsalonicenzen",
-          "1 Thslncnzn"
+          "1 Thsslns",
+          "1 Thslns",
+          "1 Thesallonians",
+          "1 Thessallonians",
+          "1 Thesalonians"
         ]
       },
       "TH2": {
-        "defaultName": "2 Thessalonicenzen",
+        "defaultName": "2 Thessalonians",
         "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "2 Thessalonicenzen",
+          "2 Thessalonians",
           "2 Thess",
-          "2 Thssalonicenzen",
-          "2 Thsslncnzn",
-          "2 Thesalonicenzen",
-          "2 Thsalonicenzen",
-          "2 Thslncnzn"
+          "2 Thsslns",
+          "2 Thslns",
+          "2 Thesallonians",
+          "2 Thessallonians",
+          "2 Thesalonians"
         ]
       },
       "TI1": {
-        "defaultName": "1 Timothe\u00fcs",
+        "defaultName": "1 Timothy",
         "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "1 Timothe\u00fcs",
+          "1 Timothy",
           "1 Tim",
-          "1 Timotheus",
-          "1 Tmths"
+          "1 Tmthy"
         ]
       },
       "TI2": {
-        "defaultName": "2 Timothe\u00fcs",
+        "defaultName": "2 Timothy",
         "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "2 Timothe\u00fcs",
+          "2 Timothy",
           "2 Tim",
-          "2 Timotheus",
-          "2 Tmths"
+          "2 Tmthy"
         ]
       },
       "TIT": {
@@ -8089,2285 +7834,2615 @@
         "inputFields": [
           "Titus",
           "Tit",
-          "Ttus",
           "Tts"
         ]
       },
       "PHM": {
-        "defaultName": "Filemon",
-        "defaultAbbreviation": "Fil",
+        "defaultName": "Philemon",
+        "defaultAbbreviation": "Phm",
         "inputFields": [
-          "Filemon",
-          "Fil",
-          "Flemon",
+          "Philemon",
+          "Phm",
+          "Phlmn",
           "Flmn"
         ]
       },
       "HEB": {
-        "defaultName": "Hebree\u00ebn",
+        "defaultName": "Hebrews",
         "defaultAbbreviation": "Heb",
         "inputFields": [
-          "Hebree\u00ebn",
+          "Hebrews",
           "Heb",
-          "Hebreeen",
-          "Hebre\u00ebn",
-          "Hebreen",
-          "Hbrn"
+          "Hbrws"
         ]
       },
       "JAM": {
-        "defaultName": "Jakobus",
-        "defaultAbbreviation": "Jak",
+        "defaultName": "James",
+        "defaultAbbreviation": "Jam",
         "inputFields": [
-          "Jakobus",
-          "Jak",
-          "Jkobus",
-          "Jkbus",
-          "Jkbs"
+          "James",
+          "Jam",
+          "Jms",
+          "Jmes",
+          "Jas"
         ]
       },
       "PE1": {
-        "defaultName": "1 Petrus",
+        "defaultName": "1 Peter",
         "defaultAbbreviation": "1 Pet",
         "inputFields": [
-          "1 Petrus",
+          "1 Peter",
           "1 Pet",
-          "1 Ptrus",
-          "1 Ptrs"
+          "1 Ptr"
         ]
       },
       "PE2": {
-        "defaultName": "2 Petrus",
+        "defaultName": "2 Peter",
         "defaultAbbreviation": "2 Pet",
         "inputFields": [
-          "2 Petrus",
+          "2 Peter",
           "2 Pet",
-          "2 Ptrus",
-          "2 Ptrs"
+          "2 Ptr"
         ]
       },
       "JN1": {
-        "defaultName": "1 Johannes",
-        "defaultAbbreviation": "1 Jhn",
+        "defaultName": "1 John",
+        "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "1 Johannes",
-          "1 Jhn",
-          "1 Johanes",
-          "1 Jhnns"
+          "1 John",
+          "1 Jn",
+          "1 Jhn"
         ]
       },
       "JN2": {
-        "defaultName": "2 Johannes",
-        "defaultAbbreviation": "2 Jhn",
+        "defaultName": "2 John",
+        "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "2 Johannes",
-          "2 Jhn",
-          "2 Johanes",
-          "2 Jhnns"
+          "2 John",
+          "2 Jn",
+          "2 Jhn"
         ]
       },
       "JN3": {
-        "defaultName": "3 Johannes",
-        "defaultAbbreviation": "3 Jhn",
+        "defaultName": "3 John",
+        "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "3 Johannes",
-          "3 Jhn",
-          "3 Johanes",
-          "3 Jhnns"
+          "3 John",
+          "3 Jn",
+          "3 Jhn"
         ]
       },
       "JDE": {
-        "defaultName": "Judas",
+        "defaultName": "Jude",
         "defaultAbbreviation": "Jud",
         "inputFields": [
-          "Judas",
+          "Jude",
           "Jud",
-          "Jdas",
-          "Jds"
+          "Jde"
+        ]
+      },
+      "REV": {
+        "defaultName": "Revelation",
+        "defaultAbbreviation": "Rev",
+        "inputFields": [
+          "Revelation",
+          "Rev",
+          "Rvltn",
+          "Rvln"
+        ]
+      },
+      "PRF": {
+        "defaultName": "Preface",
+        "defaultAbbreviation": "Prf",
+        "inputFields": [
+          "Preface",
+          "Prf",
+          "Pre"
+        ]
+      },
+      "ACK": {
+        "defaultName": "Acknowledgements",
+        "defaultAbbreviation": "Ack",
+        "inputFields": [
+          "Acknowledgements",
+          "Ack"
+        ]
+      },
+      "INT": {
+        "defaultName": "Introduction",
+        "defaultAbbreviation": "Intr",
+        "inputFields": [
+          "Introduction",
+          "Intr"
+        ]
+      },
+      "FRT": {
+        "defaultName": "Front Matter",
+        "defaultAbbreviation": "FrtMatter",
+        "inputFields": [
+          "Front Matter",
+          "FrtMatter",
+          "FM"
+        ]
+      },
+      "TOC": {
+        "defaultName": "Table of Contents",
+        "defaultAbbreviation": "ToC",
+        "inputFields": [
+          "Table of Contents",
+          "ToC"
+        ]
+      },
+      "BAK": {
+        "defaultName": "Back Matter",
+        "defaultAbbreviation": "Back",
+        "inputFields": [
+          "Back Matter",
+          "Back",
+          "Bck"
         ]
       },
-      "REV": {
-        "defaultName": "Openbaring",
-        "defaultAbbreviation": "Opn",
+      "MAP": {
+        "defaultName": "Maps",
+        "defaultAbbreviation": "Maps",
         "inputFields": [
-          "Openbaring",
-          "Opn",
-          "Opnbaring",
-          "Opnbrng"
+          "Maps",
+          "Mps"
         ]
       },
-      "BAR": {
-        "defaultName": "Baruch",
-        "defaultAbbreviation": "Bar",
+      "XXA": {
+        "defaultName": "Extra Book A",
+        "defaultAbbreviation": "ExtraA",
         "inputFields": [
-          "Baruch",
-          "Bar",
-          "Brch"
+          "Extra Book A",
+          "ExtraA"
         ]
       },
-      "DNG": {
-        "defaultName": "Daniel (Greek)",
-        "defaultAbbreviation": "Dn(Gk)",
+      "XXB": {
+        "defaultName": "Extra Book B",
+        "defaultAbbreviation": "ExtraB",
         "inputFields": [
-          "Daniel (Greek)",
-          "Dn(Gk)",
-          "DnlGk"
+          "Extra Book B",
+          "ExtraB"
         ]
       },
-      "PAZ": {
-        "defaultName": "Prayer of Azariah",
-        "defaultAbbreviation": "PrAz",
+      "XXC": {
+        "defaultName": "Extra Book C",
+        "defaultAbbreviation": "ExtraC",
         "inputFields": [
-          "Prayer of Azariah",
-          "PrAz",
-          "Pryr Azrh"
+          "Extra Book C",
+          "ExtraC"
         ]
       },
-      "BEL": {
-        "defaultName": "Bel and the Dragon",
-        "defaultAbbreviation": "Bel",
+      "XXD": {
+        "defaultName": "Extra Book D",
+        "defaultAbbreviation": "ExtraD",
         "inputFields": [
-          "Bel and the Dragon",
-          "Bel",
-          "BaD"
+          "Extra Book D",
+          "ExtraD"
         ]
       },
-      "SUS": {
-        "defaultName": "Susanna",
-        "defaultAbbreviation": "Sus",
+      "XXE": {
+        "defaultName": "Extra Book E",
+        "defaultAbbreviation": "ExtraE",
         "inputFields": [
-          "Susanna",
-          "Sus",
-          "Ssnn"
+          "Extra Book E",
+          "ExtraE"
         ]
       },
-      "GES": {
-        "defaultName": "1 Esdras",
-        "defaultAbbreviation": "1 Esd",
+      "XXF": {
+        "defaultName": "Extra Book F",
+        "defaultAbbreviation": "ExtraF",
         "inputFields": [
-          "1 Esdras",
-          "1 Esd",
-          "1 Esdrs"
+          "Extra Book F",
+          "ExtraF"
         ]
       },
-      "LES": {
-        "defaultName": "2 Esdras",
-        "defaultAbbreviation": "2 Esd",
+      "XXG": {
+        "defaultName": "Extra Book G",
+        "defaultAbbreviation": "ExtraG",
         "inputFields": [
-          "2 Esdras",
-          "2 Esd",
-          "2 Esdrs"
+          "Extra Book G",
+          "ExtraG"
         ]
-      },
-      "ESG": {
-        "defaultName": "Esther (Greek)",
-        "defaultAbbreviation": "EsGk",
+      }
+    }
+  ],
+  "fra_traditional": [
+    {
+      "OT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU",
+          "JOS",
+          "JDG",
+          "RUT",
+          "SA1",
+          "SA2",
+          "KI1",
+          "KI2",
+          "CH1",
+          "CH2",
+          "EZR",
+          "NEH",
+          "EST",
+          "JOB",
+          "PSA",
+          "PRO",
+          "ECC",
+          "SNG",
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "Ancien Testament",
+        "defaultAbbreviation": "AT",
         "inputFields": [
-          "Esther (Greek)",
-          "EsGk",
-          "EstGk"
+          "Ancien Testament",
+          "AT",
+          "L'Ancien Testament",
+          "L'Ancien Tstmnt"
         ]
       },
-      "LJE": {
-        "defaultName": "Epistle of Jeremiah",
-        "defaultAbbreviation": "EpJer",
+      "PT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU"
+        ],
+        "defaultName": "Pentateuch",
+        "defaultAbbreviation": "Pent",
         "inputFields": [
-          "Epistle of Jeremiah",
-          "EpJer",
-          "Ep Jeremiah",
-          "Ep Jrm",
-          "Ltr Jeremiah",
-          "Ltr Jrm"
+          "Pentateuch",
+          "Pnttch",
+          "Torah",
+          "Trh",
+          "Moses' books",
+          "Books of Moses",
+          "Bks of Moses"
         ]
       },
-      "JDT": {
-        "defaultName": "Judith",
-        "defaultAbbreviation": "Jdt",
+      "MJ": {
+        "includedBooks": [
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "BAR"
+        ],
+        "defaultName": "Major Prophets",
+        "defaultAbbreviation": "MajProps",
         "inputFields": [
-          "Judith",
-          "Jdt",
-          "Jdth"
+          "Major Prophets",
+          "MajProps",
+          "Mjr Prphts"
         ]
       },
-      "MAN": {
-        "defaultName": "Prayer of Manasses",
-        "defaultAbbreviation": "Man",
+      "MN": {
+        "includedBooks": [
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "Minor Prophets",
+        "defaultAbbreviation": "MinProp",
         "inputFields": [
-          "Prayer of Manasses",
-          "Man",
-          "Manasses",
-          "Manasseh",
-          "Mnss",
-          "Mnsh",
-          "Pryr Man"
+          "Minor Prophets",
+          "MinProp",
+          "Mnr Prphts"
+        ]
+      },
+      "NT": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN",
+          "ACT",
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB",
+          "JAM",
+          "PE1",
+          "PE2",
+          "JN1",
+          "JN2",
+          "JN3",
+          "JDE",
+          "REV"
+        ],
+        "defaultName": "Nouveau Testament",
+        "defaultAbbreviation": "NT",
+        "inputFields": [
+          "Nouveau Testament",
+          "NT",
+          "Le Nouveau Testament",
+          "Nv Tstmnt"
         ]
       },
-      "SIR": {
-        "defaultName": "Sirach",
-        "defaultAbbreviation": "Sir",
+      "GO": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN"
+        ],
+        "defaultName": "Gospels",
+        "defaultAbbreviation": "Gosp",
         "inputFields": [
-          "Sirach",
-          "Sir",
-          "Srch"
+          "Gospels",
+          "Gspls"
         ]
       },
-      "TOB": {
-        "defaultName": "Tobit",
-        "defaultAbbreviation": "Tob",
+      "PL": {
+        "includedBooks": [
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB"
+        ],
+        "defaultName": "Pauline Epistles",
+        "defaultAbbreviation": "EpPaul",
         "inputFields": [
-          "Tobit",
-          "Tob",
-          "Tobias",
-          "Tbt",
-          "Tbs"
+          "Pauline Epistles",
+          "EpPaul",
+          "Paul's epistles",
+          "Epistles of Paul",
+          "Ep of Paul",
+          "Letters of Paul",
+          "Ltrs of Paul",
+          "Paul's letters",
+          "Paul's ltrs"
         ]
-      },
-      "WIS": {
-        "defaultName": "Wisdom of Solomon",
-        "defaultAbbreviation": "Wis",
+      }
+    },
+    {
+      "1 ": [
+        "I ",
+        "Première ",
+        "Premiere ",
+        "Prmre ",
+        "1st ",
+        "One "
+      ],
+      "2 ": [
+        "II ",
+        "Seconde ",
+        "Scnde ",
+        "2nd ",
+        "Two "
+      ],
+      "3 ": [
+        "III ",
+        "Troisième ",
+        "Troisieme ",
+        "Trsme ",
+        "3rd ",
+        "Three "
+      ],
+      "4 ": [
+        "IV ",
+        "Quatrième ",
+        "Quatrieme ",
+        "Qutrme ",
+        "Qtrme ",
+        "4th ",
+        "Four "
+      ],
+      "5 ": [
+        "V ",
+        "Cinquième ",
+        "Cinquieme ",
+        "Cnqme ",
+        "5th ",
+        "Five "
+      ],
+      "6 ": [
+        "VI ",
+        "Sixth ",
+        "Sxth ",
+        "6th ",
+        "Six "
+      ],
+      "Saint ": [
+        "Snt ",
+        "St ",
+        "Snt. ",
+        "St. "
+      ]
+    },
+    {
+      "GEN": {
+        "defaultName": "Genèse",
+        "defaultAbbreviation": "Gen",
         "inputFields": [
-          "Wisdom of Solomon",
-          "Wis",
-          "Wsdm of Slmn"
+          "Genèse",
+          "Gen",
+          "Genese",
+          "Gns",
+          "1 Moses",
+          "1 Mss"
         ]
       },
-      "MA1": {
-        "defaultName": "1 Maccabees",
-        "defaultAbbreviation": "1 Mac",
+      "EXO": {
+        "defaultName": "Exode",
+        "defaultAbbreviation": "Exo",
         "inputFields": [
-          "1 Maccabees",
-          "1 Mac",
-          "1 Mccbs",
-          "1 Mcbs"
+          "Exode",
+          "Exo",
+          "Exde",
+          "L'Exode",
+          "L'Exde",
+          "2 Moses",
+          "2 Mss"
         ]
       },
-      "MA2": {
-        "defaultName": "2 Maccabees",
-        "defaultAbbreviation": "2 Mac",
+      "LEV": {
+        "defaultName": "Lévitique",
+        "defaultAbbreviation": "Lev",
         "inputFields": [
-          "2 Maccabees",
-          "2 Mac",
-          "2 Mccbs",
-          "2 Mcbs"
+          "Lévitique",
+          "Lev",
+          "Levitique",
+          "Lvtque",
+          "3 Moses",
+          "3 Mss"
         ]
       },
-      "MA3": {
-        "defaultName": "3 Maccabees",
-        "defaultAbbreviation": "3 Mac",
+      "NUM": {
+        "defaultName": "Nombres",
+        "defaultAbbreviation": "Nom",
         "inputFields": [
-          "3 Maccabees",
-          "3 Mac",
-          "3 Mccbs",
-          "3 Mcbs"
+          "Nombres",
+          "Nom",
+          "Nmbrs",
+          "4 Moses",
+          "4 Mss"
         ]
       },
-      "MA4": {
-        "defaultName": "4 Maccabees",
-        "defaultAbbreviation": "4 Mac",
+      "DEU": {
+        "defaultName": "Deutéronome",
+        "defaultAbbreviation": "Deu",
         "inputFields": [
-          "4 Maccabees",
-          "4 Mac",
-          "4 Mccbs",
-          "4 Mcbs"
+          "Deutéronome",
+          "Deu",
+          "Deuteronome",
+          "Dtrnme",
+          "5 Moses",
+          "5 Mss"
         ]
       },
-      "MA5": {
-        "defaultName": "5 Maccabees",
-        "defaultAbbreviation": "5 Mac",
+      "JOS": {
+        "defaultName": "Josué",
+        "defaultAbbreviation": "Jos",
         "inputFields": [
-          "5 Maccabees",
-          "5 Mac",
-          "5 Mccbs",
-          "5 Mcbs"
+          "Josué",
+          "Jos",
+          "Josue",
+          "Jsue"
         ]
       },
-      "PSB": {
-        "defaultName": "Psalms B",
-        "defaultAbbreviation": "LitPs",
+      "JDG": {
+        "defaultName": "Juges",
+        "defaultAbbreviation": "Jug",
         "inputFields": [
-          "Psalms B",
-          "LitPs",
-          "Metrical Psalms",
-          "Mtrca Pslms",
-          "Alternative Psalms",
-          "Alt Psalms",
-          "Alt Pslms",
-          "Lit Psalms",
-          "Lit Pslms"
+          "Juges",
+          "Jug",
+          "Jges",
+          "Jgs"
         ]
       },
-      "PS2": {
-        "defaultName": "Psalm 151",
-        "defaultAbbreviation": "Ps151",
+      "RUT": {
+        "defaultName": "Ruth",
+        "defaultAbbreviation": "Rut",
         "inputFields": [
-          "Psalm 151",
-          "Ps151",
-          "Pslm 151"
+          "Ruth",
+          "Rut",
+          "Rth"
         ]
       },
-      "PS3": {
-        "defaultName": "Syriac Psalms",
-        "defaultAbbreviation": "SyrPs",
+      "SA1": {
+        "defaultName": "1 Samuel",
+        "defaultAbbreviation": "1 Sam",
         "inputFields": [
-          "Syriac Psalms",
-          "SyrPs",
-          "Syr Pslms"
+          "1 Samuel",
+          "1 Sam",
+          "1 Sml"
         ]
       },
-      "PSS": {
-        "defaultName": "Psalms of Solomon",
-        "defaultAbbreviation": "AddPs",
+      "SA2": {
+        "defaultName": "2 Samuel",
+        "defaultAbbreviation": "2 Sam",
         "inputFields": [
-          "Psalms of Solomon",
-          "AddPs",
-          "Ps Sol",
-          "Slmn Pslms"
+          "2 Samuel",
+          "2 Sam",
+          "2 Sml"
         ]
       },
-      "LAO": {
-        "defaultName": "Laodiceans",
-        "defaultAbbreviation": "Lao",
+      "KI1": {
+        "defaultName": "1 Rois",
+        "defaultAbbreviation": "1 Rs",
         "inputFields": [
-          "Laodiceans",
-          "Lao",
-          "Eps Lao",
-          "Ltr Lao"
+          "1 Rois",
+          "1 Rs"
         ]
       },
-      "ODE": {
-        "defaultName": "Odes",
-        "defaultAbbreviation": "Ode",
+      "KI2": {
+        "defaultName": "2 Rois",
+        "defaultAbbreviation": "2 Rs",
         "inputFields": [
-          "Odes",
-          "Ode",
-          "Odae"
+          "2 Rois",
+          "2 Rs"
         ]
       },
-      "PSO": {
-        "defaultName": "Prayer of Solomon",
-        "defaultAbbreviation": "PrSol",
+      "CH1": {
+        "defaultName": "1 Chroniques",
+        "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "Prayer of Solomon",
-          "PrSol",
-          "Pryr Slm"
+          "1 Chroniques",
+          "1 Chr",
+          "1 Chrnqs",
+          "1 Croniqs",
+          "1 Crnq"
         ]
       },
-      "PJE": {
-        "defaultName": "Prayer of Jeremiah",
-        "defaultAbbreviation": "PrJer",
+      "CH2": {
+        "defaultName": "2 Chroniques",
+        "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "Prayer of Jeremiah",
-          "PrJer",
-          "Pryr Jeremiah"
+          "2 Chroniques",
+          "2 Chr",
+          "2 Chrnqs",
+          "2 Croniqs",
+          "2 Crnq"
         ]
       },
-      "WSI": {
-        "defaultName": "Words of Sirach",
-        "defaultAbbreviation": "WrdsSir",
+      "EZR": {
+        "defaultName": "Esdras",
+        "defaultAbbreviation": "Esd",
         "inputFields": [
-          "Words of Sirach",
-          "WrdsSir",
-          "Wrds Sirach",
-          "Wrds Srch"
+          "Esdras",
+          "Esd",
+          "Esdrs"
         ]
       },
-      "COP": {
-        "defaultName": "Epistle of Corinthians to Paul",
-        "defaultAbbreviation": "EpCor",
+      "NEH": {
+        "defaultName": "Néhémie",
+        "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Epistle of Corinthians to Paul",
-          "EpCor",
-          "Ep Corinthians",
-          "Ep Crnthns",
-          "Ltr Corinthians",
-          "Ltr Crnthns"
+          "Néhémie",
+          "Neh",
+          "Nhmie",
+          "Nehémie",
+          "Néhemie",
+          "Nehemie"
         ]
       },
-      "CO3": {
-        "defaultName": "3 Corinthians",
-        "defaultAbbreviation": "3 Cor",
+      "EST": {
+        "defaultName": "Ester",
+        "defaultAbbreviation": "Est",
         "inputFields": [
-          "3 Corinthians",
-          "3 Cor",
-          "3 Crnthns"
+          "Ester",
+          "Est",
+          "Esther",
+          "Estr"
         ]
       },
-      "EUT": {
-        "defaultName": "Prayer of Euthalius",
-        "defaultAbbreviation": "Eut",
+      "JOB": {
+        "defaultName": "Job",
+        "defaultAbbreviation": "Job",
         "inputFields": [
-          "Prayer of Euthalius",
-          "Eut",
-          "Pr Eut"
+          "Job",
+          "Jb"
         ]
       },
-      "DOJ": {
-        "defaultName": "Dormition of John",
-        "defaultAbbreviation": "DoJ",
+      "PSA": {
+        "defaultName": "Psaumes",
+        "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Dormition of John",
-          "DoJ",
-          "Drm Jhn",
-          "Drm Jn"
+          "Psaumes",
+          "Psa",
+          "Psms"
         ]
       },
-      "TTP": {
-        "defaultName": "Testaments of the Twelve Patriarchs",
-        "defaultAbbreviation": "Tst12",
+      "PRO": {
+        "defaultName": "Proverbes",
+        "defaultAbbreviation": "Pro",
         "inputFields": [
-          "Testaments of the Twelve Patriarchs",
-          "Tst12",
-          "Tst 12P",
-          "Tst Twelve"
+          "Proverbes",
+          "Pro",
+          "Prvrbs",
+          "Prvbs"
         ]
       },
-      "JUB": {
-        "defaultName": "Jubilees",
-        "defaultAbbreviation": "Jub",
+      "ECC": {
+        "defaultName": "Ecclésiaste",
+        "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Jubilees",
-          "Jub",
-          "Jbls"
+          "Ecclésiaste",
+          "Ecc",
+          "Ecclesiaste",
+          "L'Ecclésiaste",
+          "L'Ecclesiaste",
+          "Ecclst"
         ]
       },
-      "ENO": {
-        "defaultName": "Enoch",
-        "defaultAbbreviation": "Eno",
+      "SNG": {
+        "defaultName": "Cantique de Salomon",
+        "defaultAbbreviation": "Cnt",
         "inputFields": [
-          "Enoch",
-          "Eno",
-          "Ench",
-          "1 Enoch",
-          "1 Ench"
+          "Cantique de Salomon",
+          "Cnt",
+          "Cantique des Cantiques",
+          "Cnt de Slmn",
+          "CdS",
+          "CS"
         ]
       },
-      "EN2": {
-        "defaultName": "2 Enoch",
-        "defaultAbbreviation": "2 Eno",
+      "ISA": {
+        "defaultName": "Ésaie",
+        "defaultAbbreviation": "Ésa",
         "inputFields": [
-          "2 Enoch",
-          "2 Eno",
-          "2 Ench"
+          "Ésaie",
+          "Ésa",
+          "Esaïe",
+          "Esaie"
         ]
       },
-      "EZA": {
-        "defaultName": "Apocalypse of Ezra",
-        "defaultAbbreviation": "ApEz",
+      "JER": {
+        "defaultName": "Jérémie",
+        "defaultAbbreviation": "Jér",
         "inputFields": [
-          "Apocalypse of Ezra",
-          "ApEz",
-          "Ap Ezra"
+          "Jérémie",
+          "Jér",
+          "Jeremie",
+          "Jerémie",
+          "Jéremie",
+          "Jrm"
         ]
       },
-      "EZ5": {
-        "defaultName": "5 Ezra",
-        "defaultAbbreviation": "5 Ezr",
+      "LAM": {
+        "defaultName": "Lamentations",
+        "defaultAbbreviation": "Lam",
         "inputFields": [
-          "5 Ezra",
-          "5 Ezr",
-          "5 Esdras"
+          "Lamentations",
+          "Lam",
+          "Lmnts"
         ]
       },
-      "EZ6": {
-        "defaultName": "6 Ezra",
-        "defaultAbbreviation": "6 Ezr",
+      "EZE": {
+        "defaultName": "Ézéchiel",
+        "defaultAbbreviation": "Ézé",
         "inputFields": [
-          "6 Ezra",
-          "6 Ezr",
-          "6 Esdras"
+          "Ézéchiel",
+          "Ézé",
+          "Ezechiel",
+          "Ezéchiel",
+          "Ézechiel",
+          "Ézchl",
+          "Ezchl"
         ]
       },
-      "REP": {
-        "defaultName": "Reproof",
-        "defaultAbbreviation": "Rep",
+      "DAN": {
+        "defaultName": "Daniel",
+        "defaultAbbreviation": "Dan",
         "inputFields": [
-          "Reproof",
-          "Rep",
-          "Rprf"
+          "Daniel",
+          "Dan",
+          "Dnl"
         ]
       },
-      "MQ1": {
-        "defaultName": "1 Meqabyan",
-        "defaultAbbreviation": "1 Meq",
+      "HOS": {
+        "defaultName": "Osèe",
+        "defaultAbbreviation": "Osè",
         "inputFields": [
-          "1 Meqabyan",
-          "1 Meq",
-          "1 Mqbyn",
-          "1 Makabian",
-          "1 Mkbn",
-          "Mekabis of Benjamin",
-          "Mekabis Benjamin",
-          "Mkbs Bnjmn"
+          "Osèe",
+          "Osè",
+          "Osée",
+          "Osee"
         ]
       },
-      "MQ2": {
-        "defaultName": "2 Meqabyan",
-        "defaultAbbreviation": "2 Meq",
+      "JOL": {
+        "defaultName": "Joël",
+        "defaultAbbreviation": "Joel",
         "inputFields": [
-          "2 Meqabyan",
-          "2 Meq",
-          "2 Mqbyn",
-          "2 Makabian",
-          "2 Mkbn",
-          "Mekabis of Moab",
-          "Mekabis Moab",
-          "Mkbs Mb"
+          "Joël",
+          "Joel",
+          "Jol",
+          "Jl"
         ]
       },
-      "MQ3": {
-        "defaultName": "3 Meqabyan",
-        "defaultAbbreviation": "3 Meq",
+      "AMO": {
+        "defaultName": "Amos",
+        "defaultAbbreviation": "Amos",
         "inputFields": [
-          "3 Meqabyan",
-          "3 Meq",
-          "3 Mqbyn",
-          "3 Makabian",
-          "3 Mkbn"
+          "Amos",
+          "Ams"
+        ]
+      },
+      "OBA": {
+        "defaultName": "Abdias",
+        "defaultAbbreviation": "Abd",
+        "inputFields": [
+          "Abdias",
+          "Abd",
+          "Abds"
         ]
       },
-      "BA2": {
-        "defaultName": "2 Baruch",
-        "defaultAbbreviation": "2 Bar",
+      "JNA": {
+        "defaultName": "Jonas",
+        "defaultAbbreviation": "Jon",
         "inputFields": [
-          "2 Baruch",
-          "2 Bar",
-          "2 Brch",
-          "Apocalypse of Baruch",
-          "Apoc of Baruch",
-          "Apoc Baruch"
+          "Jonas",
+          "Jon",
+          "Jns"
         ]
       },
-      "BA3": {
-        "defaultName": "3 Baruch",
-        "defaultAbbreviation": "3 Bar",
+      "MIC": {
+        "defaultName": "Michée",
+        "defaultAbbreviation": "Mic",
         "inputFields": [
-          "3 Baruch",
-          "3 Bar",
-          "3 Brch"
+          "Michée",
+          "Mic",
+          "Michee",
+          "Mchée",
+          "Mchee"
         ]
       },
-      "BA4": {
-        "defaultName": "4 Baruch",
-        "defaultAbbreviation": "4 Bar",
+      "NAH": {
+        "defaultName": "Nahum",
+        "defaultAbbreviation": "Nah",
         "inputFields": [
-          "4 Baruch",
-          "4 Bar",
-          "4 Brch",
-          "Paralipomenon of Jeremiah",
-          "Prlp of Jrmh",
-          "Rest of Words of Baruch"
+          "Nahum",
+          "Nah",
+          "Nahm",
+          "Nhum"
         ]
       },
-      "LBA": {
-        "defaultName": "Epistle of Baruch",
-        "defaultAbbreviation": "EpBar",
+      "HAB": {
+        "defaultName": "Habacuc",
+        "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Epistle of Baruch",
-          "EpBar",
-          "Ep Baruch",
-          "Ep Brch",
-          "Epi Baruch",
-          "Epis Baruch",
-          "Letter of Baruch",
-          "Ltr of Baruch",
-          "Ltr Baruch"
+          "Habacuc",
+          "Hab",
+          "Habakuk",
+          "Hbcc"
         ]
       },
-      "LJB": {
-        "defaultName": "Epistle of Jeremiah (with Baruch)",
-        "defaultAbbreviation": "EpJer",
+      "ZEP": {
+        "defaultName": "Sophonie",
+        "defaultAbbreviation": "Sop",
         "inputFields": [
-          "Epistle of Jeremiah (with Baruch)",
-          "EpJer",
-          "Ep Jer"
+          "Sophonie",
+          "Sop",
+          "Sphnie"
         ]
       },
-      "CL1": {
-        "defaultName": "1 Clement",
-        "defaultAbbreviation": "1 Cle",
+      "HAG": {
+        "defaultName": "Aggée",
+        "defaultAbbreviation": "Agg",
         "inputFields": [
-          "1 Clement",
-          "1 Cle",
-          "1 Clmnt"
+          "Aggée",
+          "Agg",
+          "Aggee",
+          "Agée",
+          "Agee"
         ]
       },
-      "CL2": {
-        "defaultName": "2 Clement",
-        "defaultAbbreviation": "2 Cle",
+      "ZEC": {
+        "defaultName": "Zacharie",
+        "defaultAbbreviation": "Zac",
         "inputFields": [
-          "2 Clement",
-          "2 Cle",
-          "2 Clmnt"
+          "Zacharie",
+          "Zac",
+          "Zchrie"
         ]
       },
-      "SHE": {
-        "defaultName": "Shepherd of Hermas",
-        "defaultAbbreviation": "Her",
+      "MAL": {
+        "defaultName": "Malachie",
+        "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Shepherd of Hermas",
-          "Her",
-          "Hermas",
-          "Hrms",
-          "Shep Hermas"
+          "Malachie",
+          "Mal",
+          "Mlchie"
         ]
       },
-      "DID": {
-        "defaultName": "Didache",
-        "defaultAbbreviation": "Did",
+      "MAT": {
+        "defaultName": "Matthieu",
+        "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Didache",
-          "Did",
-          "Ddch"
+          "Matthieu",
+          "Mat",
+          "Mtth",
+          "Mth",
+          "Saint Matthieu",
+          "Saint Mtth",
+          "Saint Mth"
         ]
       },
-      "MOS": {
-        "defaultName": "Moses",
-        "defaultAbbreviation": "Mos",
+      "MRK": {
+        "defaultName": "Marc",
+        "defaultAbbreviation": "Mrc",
         "inputFields": [
-          "Moses",
-          "Mos",
-          "Mss"
+          "Marc",
+          "Mrc",
+          "Mrk",
+          "Mc",
+          "Saint Marc",
+          "Saint Mrc",
+          "Saint Mc"
         ]
       },
-      "SAM": {
-        "defaultName": "Samuel",
-        "defaultAbbreviation": "Sam",
+      "LUK": {
+        "defaultName": "Luc",
+        "defaultAbbreviation": "Luc",
         "inputFields": [
-          "Samuel",
-          "Sam",
-          "Sml"
+          "Luc",
+          "Lc",
+          "Saint Luc",
+          "Saint Lc"
         ]
       },
-      "KGS": {
-        "defaultName": "Kings",
-        "defaultAbbreviation": "Kgs",
+      "JHN": {
+        "defaultName": "Jean",
+        "defaultAbbreviation": "Jn",
         "inputFields": [
-          "Kings",
-          "Kgs",
-          "Kngs"
+          "Jean",
+          "Jn",
+          "Saint Jean",
+          "Saint Jn"
         ]
       },
-      "CHR": {
-        "defaultName": "Chronicles",
-        "defaultAbbreviation": "Chr",
+      "ACT": {
+        "defaultName": "Actes",
+        "defaultAbbreviation": "Act",
         "inputFields": [
-          "Chronicles",
-          "Chr",
-          "Chrncls"
+          "Actes",
+          "Act",
+          "Acts"
         ]
       },
-      "EZN": {
-        "defaultName": "Ezra-Nehemiah",
-        "defaultAbbreviation": "EzNeh",
+      "ROM": {
+        "defaultName": "Romains",
+        "defaultAbbreviation": "Rom",
         "inputFields": [
-          "Ezra-Nehemiah",
-          "EzNeh",
-          "Ezr Neh"
+          "Romains",
+          "Rom",
+          "Rmns"
         ]
       },
-      "P12": {
-        "defaultName": "Twelve Prophets",
-        "defaultAbbreviation": "TwProp",
+      "CO1": {
+        "defaultName": "1 Corinthiens",
+        "defaultAbbreviation": "1 Cor",
         "inputFields": [
-          "Twelve Prophets",
-          "TwProp",
-          "12 Prophets"
-        ]
-      }
-    }
-  ],
-  "eng_deuterocanon": [
-    {
-      "OT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU",
-          "JOS",
-          "JDG",
-          "RUT",
-          "SA1",
-          "SA2",
-          "KI1",
-          "KI2",
-          "CH1",
-          "CH2",
-          "EZR",
-          "NEH",
-          "EST",
-          "JOB",
-          "PSA",
-          "PRO",
-          "ECC",
-          "SNG",
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Old Testament",
-        "defaultAbbreviation": "OT",
+          "1 Corinthiens",
+          "1 Cor",
+          "1 Crnthns"
+        ]
+      },
+      "CO2": {
+        "defaultName": "2 Corinthiens",
+        "defaultAbbreviation": "2 Cor",
         "inputFields": [
-          "Old Testament",
-          "OT",
-          "Old Tstmnt"
+          "2 Corinthiens",
+          "2 Cor",
+          "2 Crnthns"
         ]
       },
-      "PT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU"
-        ],
-        "defaultName": "Pentateuch",
-        "defaultAbbreviation": "Pent",
+      "GAL": {
+        "defaultName": "Galates",
+        "defaultAbbreviation": "Gal",
         "inputFields": [
-          "Pentateuch",
-          "Pnttch",
-          "Torah",
-          "Trh",
-          "Moses' books",
-          "Books of Moses",
-          "Bks of Moses"
+          "Galates",
+          "Gal",
+          "Glts"
         ]
       },
-      "MJ": {
-        "includedBooks": [
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "BAR"
-        ],
-        "defaultName": "Major Prophets",
-        "defaultAbbreviation": "MajProps",
+      "EPH": {
+        "defaultName": "Éphésiens",
+        "defaultAbbreviation": "Éph",
         "inputFields": [
-          "Major Prophets",
-          "MajProps",
-          "Mjr Prphts"
+          "Éphésiens",
+          "Éph",
+          "Ephésiens",
+          "Éphesiens",
+          "Ephesiens",
+          "Éphsns",
+          "Ephsns"
         ]
       },
-      "MN": {
-        "includedBooks": [
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Minor Prophets",
-        "defaultAbbreviation": "MinProp",
+      "PHP": {
+        "defaultName": "Philippiens",
+        "defaultAbbreviation": "Php",
         "inputFields": [
-          "Minor Prophets",
-          "MinProp",
-          "Mnr Prphts"
+          "Philippiens",
+          "Php",
+          "Phlppns",
+          "Phlpns",
+          "Phillipiens",
+          "Philipiens",
+          "Phillippiens"
         ]
       },
-      "NT": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN",
-          "ACT",
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB",
-          "JAM",
-          "PE1",
-          "PE2",
-          "JN1",
-          "JN2",
-          "JN3",
-          "JDE",
-          "REV"
-        ],
-        "defaultName": "New Testament",
-        "defaultAbbreviation": "NT",
+      "COL": {
+        "defaultName": "Colossiens",
+        "defaultAbbreviation": "Col",
         "inputFields": [
-          "New Testament",
-          "NT",
-          "Nw Tstmnt"
+          "Colossiens",
+          "Col",
+          "Clssns",
+          "Clsns",
+          "Cllssns",
+          "Collosiens",
+          "Collossiens",
+          "Colosiens"
         ]
       },
-      "GO": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN"
-        ],
-        "defaultName": "Gospels",
-        "defaultAbbreviation": "Gosp",
+      "TH1": {
+        "defaultName": "1 Thessaloniciens",
+        "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "Gospels",
-          "Gspls"
+          "1 Thessaloniciens",
+          "1 Thess",
+          "1 Thsslncns",
+          "1 Thslns",
+          "1 Thesalloniciens",
+          "1 Thessalloniciens",
+          "1 Thesaloniciens"
         ]
       },
-      "PL": {
-        "includedBooks": [
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB"
-        ],
-        "defaultName": "Pauline Epistles",
-        "defaultAbbreviation": "EpPaul",
+      "TH2": {
+        "defaultName": "2 Thessaloniciens",
+        "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "Pauline Epistles",
-          "EpPaul",
-          "Paul's epistles",
-          "Epistles of Paul",
-          "Ep of Paul",
-          "Letters of Paul",
-          "Ltrs of Paul",
-          "Paul's letters",
-          "Paul's ltrs"
+          "2 Thessaloniciens",
+          "2 Thess",
+          "2 Thsslncns",
+          "2 Thslns",
+          "2 Thesalloniciens",
+          "2 Thessalloniciens",
+          "2 Thesaloniciens"
         ]
       },
-      "DC": {
-        "includedBooks": [
-          "TOB",
-          "JDT",
-          "ESG",
-          "WIS",
-          "SIR",
-          "LJE",
-          "PAZ",
-          "SUS",
-          "BEL",
-          "MA1",
-          "MA2",
-          "GES",
-          "LES",
-          "MAN"
-        ],
-        "defaultName": "Deuterocanon",
-        "defaultAbbreviation": "DC",
+      "TI1": {
+        "defaultName": "1 Timothée",
+        "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "Deuterocanon",
-          "DC",
-          "DtrCnn",
-          "Apocrypha",
-          "Apcrypha"
+          "1 Timothée",
+          "1 Tim",
+          "1 Tmth",
+          "1 Timothee"
+        ]
+      },
+      "TI2": {
+        "defaultName": "2 Timothée",
+        "defaultAbbreviation": "2 Tim",
+        "inputFields": [
+          "2 Timothée",
+          "2 Tim",
+          "2 Tmth",
+          "2 Timothee"
+        ]
+      },
+      "TIT": {
+        "defaultName": "Tite",
+        "defaultAbbreviation": "Tit",
+        "inputFields": [
+          "Tite",
+          "Tit",
+          "Tte"
+        ]
+      },
+      "PHM": {
+        "defaultName": "Philémon",
+        "defaultAbbreviation": "Phm",
+        "inputFields": [
+          "Philémon",
+          "Phm",
+          "Phlmn",
+          "Philemon"
+        ]
+      },
+      "HEB": {
+        "defaultName": "Hébreux",
+        "defaultAbbreviation": "Heb",
+        "inputFields": [
+          "Hébreux",
+          "Heb",
+          "Hbrx",
+          "Hebreux"
+        ]
+      },
+      "JAM": {
+        "defaultName": "Jacques",
+        "defaultAbbreviation": "Jac",
+        "inputFields": [
+          "Jacques",
+          "Jac",
+          "Jcqs",
+          "Saint Jacques",
+          "Saint Jcqs"
         ]
-      }
-    },
-    {
-      "1 ": [
-        "I ",
-        "First ",
-        "Frst ",
-        "1st ",
-        "One "
-      ],
-      "2 ": [
-        "II ",
-        "Second ",
-        "Scnd ",
-        "2nd ",
-        "Two "
-      ],
-      "3 ": [
-        "III ",
-        "Third ",
-        "Thrd ",
-        "3rd ",
-        "Three "
-      ],
-      "4 ": [
-        "IV ",
-        "Fourth ",
-        "Forth ",
-        "Frth ",
-        "4th ",
-        "Four "
-      ],
-      "5 ": [
-        "V ",
-        "Fifth ",
-        "Ffth ",
-        "5th ",
-        "Five "
-      ],
-      "6 ": [
-        "VI ",
-        "Sixth ",
-        "Sxth ",
-        "6th ",
-        "Six "
-      ],
-      "Saint ": [
-        "Snt ",
-        "St ",
-        "Snt. ",
-        "St. "
-      ]
-    },
-    {
-      "GEN": {
-        "defaultName": "Genesis",
-        "defaultAbbreviation": "Gen",
+      },
+      "PE1": {
+        "defaultName": "1 Pierre",
+        "defaultAbbreviation": "1 Pie",
         "inputFields": [
-          "Genesis",
-          "Gen",
-          "Gnss",
-          "1 Moses",
-          "1 Mss"
+          "1 Pierre",
+          "1 Pie",
+          "1 Prre",
+          "1 Saint Pierre",
+          "1 Saint Prre"
         ]
       },
-      "EXO": {
-        "defaultName": "Exodus",
-        "defaultAbbreviation": "Exo",
+      "PE2": {
+        "defaultName": "2 Pierre",
+        "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "Exodus",
-          "Exo",
-          "Exds",
-          "2 Moses",
-          "2 Mss"
+          "2 Pierre",
+          "2 Pie",
+          "2 Prre",
+          "2 Saint Pierre",
+          "2 Saint Prre"
         ]
       },
-      "LEV": {
-        "defaultName": "Leviticus",
-        "defaultAbbreviation": "Lev",
+      "JN1": {
+        "defaultName": "1 Jean",
+        "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "Leviticus",
-          "Lev",
-          "Lvtcs",
-          "3 Moses",
-          "3 Mss"
+          "1 Jean",
+          "1 Jn",
+          "1 Jen"
         ]
       },
-      "NUM": {
-        "defaultName": "Numbers",
-        "defaultAbbreviation": "Num",
+      "JN2": {
+        "defaultName": "2 Jean",
+        "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "Numbers",
-          "Num",
-          "Nmbrs",
-          "4 Moses",
-          "4 Mss"
+          "2 Jean",
+          "2 Jn",
+          "2 Jen"
         ]
       },
-      "DEU": {
-        "defaultName": "Deuteronomy",
-        "defaultAbbreviation": "Deu",
+      "JN3": {
+        "defaultName": "3 Jean",
+        "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "Deuteronomy",
-          "Deu",
-          "Dtrnmy",
-          "5 Moses",
-          "5 Mss"
+          "3 Jean",
+          "3 Jn",
+          "3 Jen"
         ]
       },
-      "JOS": {
-        "defaultName": "Joshua",
-        "defaultAbbreviation": "Josh",
+      "JDE": {
+        "defaultName": "Jude",
+        "defaultAbbreviation": "Jud",
         "inputFields": [
-          "Joshua",
-          "Josh",
-          "Jsh"
+          "Jude",
+          "Jud",
+          "Jde"
         ]
       },
-      "JDG": {
-        "defaultName": "Judges",
-        "defaultAbbreviation": "Jdg",
+      "REV": {
+        "defaultName": "Apocalypse",
+        "defaultAbbreviation": "Apo",
         "inputFields": [
-          "Judges",
-          "Jdg",
-          "Jdgs"
+          "Apocalypse",
+          "Apo",
+          "Apclypse",
+          "Apclpse"
         ]
       },
-      "RUT": {
-        "defaultName": "Ruth",
-        "defaultAbbreviation": "Rut",
+      "BAR": {
+        "defaultName": "Baruch",
+        "defaultAbbreviation": "Bar",
         "inputFields": [
-          "Ruth",
-          "Rut",
-          "Rth"
+          "Baruch",
+          "Bar",
+          "Brch"
         ]
       },
-      "SA1": {
-        "defaultName": "1 Samuel",
-        "defaultAbbreviation": "1 Sam",
+      "DNG": {
+        "defaultName": "Daniel (Greek)",
+        "defaultAbbreviation": "Dn(Gk)",
         "inputFields": [
-          "1 Samuel",
-          "1 Sam",
-          "1 Sml",
-          "1 Sl"
+          "Daniel (Greek)",
+          "Dn(Gk)",
+          "DnlGk"
         ]
       },
-      "SA2": {
-        "defaultName": "2 Samuel",
-        "defaultAbbreviation": "2 Sam",
+      "PAZ": {
+        "defaultName": "Prayer of Azariah",
+        "defaultAbbreviation": "PrAz",
         "inputFields": [
-          "2 Samuel",
-          "2 Sam",
-          "2 Sml",
-          "2 Sl"
+          "Prayer of Azariah",
+          "PrAz",
+          "Pryr Azrh"
         ]
       },
-      "KI1": {
-        "defaultName": "1 Kings",
-        "defaultAbbreviation": "1 Kgs",
+      "BEL": {
+        "defaultName": "Bel and the Dragon",
+        "defaultAbbreviation": "Bel",
         "inputFields": [
-          "1 Kings",
-          "1 Kgs",
-          "1 Kngs",
-          "1 Ks"
+          "Bel and the Dragon",
+          "Bel",
+          "BaD"
         ]
       },
-      "KI2": {
-        "defaultName": "2 Kings",
-        "defaultAbbreviation": "2 Kgs",
+      "SUS": {
+        "defaultName": "Susanna",
+        "defaultAbbreviation": "Sus",
         "inputFields": [
-          "2 Kings",
-          "2 Kgs",
-          "2 Kngs",
-          "2 Ks"
+          "Susanna",
+          "Sus",
+          "Ssnn"
         ]
       },
-      "CH1": {
-        "defaultName": "1 Chronicles",
-        "defaultAbbreviation": "1 Chr",
+      "GES": {
+        "defaultName": "1 Esdras",
+        "defaultAbbreviation": "1 Esd",
         "inputFields": [
-          "1 Chronicles",
-          "1 Chr",
-          "1 Chrnc",
-          "1 Cronic",
-          "1 Crnc"
+          "1 Esdras",
+          "1 Esd",
+          "1 Esdrs"
         ]
       },
-      "CH2": {
-        "defaultName": "2 Chronicles",
-        "defaultAbbreviation": "2 Chr",
+      "LES": {
+        "defaultName": "2 Esdras",
+        "defaultAbbreviation": "2 Esd",
         "inputFields": [
-          "2 Chronicles",
-          "2 Chr",
-          "2 Chrnc",
-          "2 Cronic",
-          "2 Crnc"
+          "2 Esdras",
+          "2 Esd",
+          "2 Esdrs"
         ]
       },
-      "EZR": {
-        "defaultName": "Ezra",
-        "defaultAbbreviation": "Ezr",
+      "ESG": {
+        "defaultName": "Esther (Greek)",
+        "defaultAbbreviation": "EsGk",
         "inputFields": [
-          "Ezra",
-          "Ezr"
+          "Esther (Greek)",
+          "EsGk",
+          "EstGk"
         ]
       },
-      "NEH": {
-        "defaultName": "Nehemiah",
-        "defaultAbbreviation": "Neh",
+      "LJE": {
+        "defaultName": "Epistle of Jeremiah",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "Nehemiah",
-          "Neh",
-          "Nhmh"
+          "Epistle of Jeremiah",
+          "EpJer",
+          "Ep Jeremiah",
+          "Ep Jrm",
+          "Ltr Jeremiah",
+          "Ltr Jrm"
         ]
       },
-      "EST": {
-        "defaultName": "Esther",
-        "defaultAbbreviation": "Est",
+      "JDT": {
+        "defaultName": "Judith",
+        "defaultAbbreviation": "Jdt",
         "inputFields": [
-          "Esther",
-          "Est",
-          "Esthr",
-          "Estr"
+          "Judith",
+          "Jdt",
+          "Jdth"
         ]
       },
-      "JOB": {
-        "defaultName": "Job",
-        "defaultAbbreviation": "Job",
+      "MAN": {
+        "defaultName": "Prayer of Manasses",
+        "defaultAbbreviation": "Man",
         "inputFields": [
-          "Job",
-          "Jb"
+          "Prayer of Manasses",
+          "Man",
+          "Manasses",
+          "Manasseh",
+          "Mnss",
+          "Mnsh",
+          "Pryr Man"
         ]
       },
-      "PSA": {
-        "defaultName": "Psalms",
-        "defaultAbbreviation": "Psa",
+      "SIR": {
+        "defaultName": "Sirach",
+        "defaultAbbreviation": "Sir",
         "inputFields": [
-          "Psalms",
-          "Psa",
-          "Pslms"
+          "Sirach",
+          "Sir",
+          "Srch"
         ]
       },
-      "PRO": {
-        "defaultName": "Proverbs",
-        "defaultAbbreviation": "Pro",
+      "TOB": {
+        "defaultName": "Tobit",
+        "defaultAbbreviation": "Tob",
         "inputFields": [
-          "Proverbs",
-          "Pro",
-          "Prvrbs",
-          "Prvbs"
+          "Tobit",
+          "Tob",
+          "Tobias",
+          "Tbt",
+          "Tbs"
         ]
       },
-      "ECC": {
-        "defaultName": "Ecclesiastes",
-        "defaultAbbreviation": "Ecc",
+      "WIS": {
+        "defaultName": "Wisdom of Solomon",
+        "defaultAbbreviation": "Wis",
         "inputFields": [
-          "Ecclesiastes",
-          "Ecc",
-          "Ecclsts",
-          "Qoheleth",
-          "Qhlth"
+          "Wisdom of Solomon",
+          "Wis",
+          "Wsdm of Slmn"
         ]
       },
-      "SNG": {
-        "defaultName": "Song of Solomon",
-        "defaultAbbreviation": "Sng",
+      "MA1": {
+        "defaultName": "1 Maccabees",
+        "defaultAbbreviation": "1 Mac",
         "inputFields": [
-          "Song of Solomon",
-          "Sng",
-          "Sng of Slmn",
-          "Song of Songs",
-          "Sng of Sngs",
-          "SoS",
-          "SS",
-          "Canticle of Canticles",
-          "Cntcl of Cntcl",
-          "CoC",
-          "CC"
+          "1 Maccabees",
+          "1 Mac",
+          "1 Mccbs",
+          "1 Mcbs"
         ]
       },
-      "ISA": {
-        "defaultName": "Isaiah",
-        "defaultAbbreviation": "Isa",
+      "MA2": {
+        "defaultName": "2 Maccabees",
+        "defaultAbbreviation": "2 Mac",
         "inputFields": [
-          "Isaiah",
-          "Isa"
+          "2 Maccabees",
+          "2 Mac",
+          "2 Mccbs",
+          "2 Mcbs"
         ]
       },
-      "JER": {
-        "defaultName": "Jeremiah",
-        "defaultAbbreviation": "Jer",
+      "MA3": {
+        "defaultName": "3 Maccabees",
+        "defaultAbbreviation": "3 Mac",
         "inputFields": [
-          "Jeremiah",
-          "Jer",
-          "Jrmh"
+          "3 Maccabees",
+          "3 Mac",
+          "3 Mccbs",
+          "3 Mcbs"
         ]
       },
-      "LAM": {
-        "defaultName": "Lamentations",
-        "defaultAbbreviation": "Lam",
+      "MA4": {
+        "defaultName": "4 Maccabees",
+        "defaultAbbreviation": "4 Mac",
         "inputFields": [
-          "Lamentations",
-          "Lam",
-          "Lmnts",
-          "Lamentations of Jeremiah"
+          "4 Maccabees",
+          "4 Mac",
+          "4 Mccbs",
+          "4 Mcbs"
         ]
       },
-      "EZE": {
-        "defaultName": "Ezekiel",
-        "defaultAbbreviation": "Eze",
+      "MA5": {
+        "defaultName": "5 Maccabees",
+        "defaultAbbreviation": "5 Mac",
         "inputFields": [
-          "Ezekiel",
-          "Eze",
-          "Ezkl"
+          "5 Maccabees",
+          "5 Mac",
+          "5 Mccbs",
+          "5 Mcbs"
         ]
       },
-      "DAN": {
-        "defaultName": "Daniel",
-        "defaultAbbreviation": "Dan",
+      "PSB": {
+        "defaultName": "Psalms B",
+        "defaultAbbreviation": "LitPs",
         "inputFields": [
-          "Daniel",
-          "Dan",
-          "Dnl"
+          "Psalms B",
+          "LitPs",
+          "Metrical Psalms",
+          "Mtrca Pslms",
+          "Alternative Psalms",
+          "Alt Psalms",
+          "Alt Pslms",
+          "Lit Psalms",
+          "Lit Pslms"
         ]
       },
-      "HOS": {
-        "defaultName": "Hosea",
-        "defaultAbbreviation": "Hos",
+      "PS2": {
+        "defaultName": "Psalm 151",
+        "defaultAbbreviation": "Ps151",
         "inputFields": [
-          "Hosea",
-          "Hos",
-          "Hs"
+          "Psalm 151",
+          "Ps151",
+          "Pslm 151"
         ]
       },
-      "JOL": {
-        "defaultName": "Joel",
-        "defaultAbbreviation": "Joel",
+      "PS3": {
+        "defaultName": "Syriac Psalms",
+        "defaultAbbreviation": "SyrPs",
         "inputFields": [
-          "Joel",
-          "Jl"
+          "Syriac Psalms",
+          "SyrPs",
+          "Syr Pslms"
         ]
       },
-      "AMO": {
-        "defaultName": "Amos",
-        "defaultAbbreviation": "Amos",
+      "PSS": {
+        "defaultName": "Psalms of Solomon",
+        "defaultAbbreviation": "AddPs",
         "inputFields": [
-          "Amos",
-          "Ams"
+          "Psalms of Solomon",
+          "AddPs",
+          "Ps Sol",
+          "Slmn Pslms"
         ]
       },
-      "OBA": {
-        "defaultName": "Obadiah",
-        "defaultAbbreviation": "Oba",
+      "LAO": {
+        "defaultName": "Laodiceans",
+        "defaultAbbreviation": "Lao",
         "inputFields": [
-          "Obadiah",
-          "Oba",
-          "Obdh"
+          "Laodiceans",
+          "Lao",
+          "Eps Lao",
+          "Ltr Lao"
         ]
       },
-      "JNA": {
-        "defaultName": "Jonah",
-        "defaultAbbreviation": "Jon",
+      "ODE": {
+        "defaultName": "Odes",
+        "defaultAbbreviation": "Ode",
         "inputFields": [
-          "Jonah",
-          "Jon",
-          "Jnh"
+          "Odes",
+          "Ode",
+          "Odae"
         ]
       },
-      "MIC": {
-        "defaultName": "Micah",
-        "defaultAbbreviation": "Mic",
+      "PSO": {
+        "defaultName": "Prayer of Solomon",
+        "defaultAbbreviation": "PrSol",
         "inputFields": [
-          "Micah",
-          "Mic",
-          "Mcah",
-          "Mich",
-          "Mch"
+          "Prayer of Solomon",
+          "PrSol",
+          "Pryr Slm"
         ]
       },
-      "NAH": {
-        "defaultName": "Nahum",
-        "defaultAbbreviation": "Nah",
+      "PJE": {
+        "defaultName": "Prayer of Jeremiah",
+        "defaultAbbreviation": "PrJer",
         "inputFields": [
-          "Nahum",
-          "Nah",
-          "Nahm",
-          "Nhum",
-          "Nhm"
+          "Prayer of Jeremiah",
+          "PrJer",
+          "Pryr Jeremiah"
         ]
       },
-      "HAB": {
-        "defaultName": "Habakkuk",
-        "defaultAbbreviation": "Hab",
+      "WSI": {
+        "defaultName": "Words of Sirach",
+        "defaultAbbreviation": "WrdsSir",
         "inputFields": [
-          "Habakkuk",
-          "Hab",
-          "Hbkk",
-          "Habbakkuk",
-          "Habbakuk",
-          "Habakuk",
-          "Hbbkk"
+          "Words of Sirach",
+          "WrdsSir",
+          "Wrds Sirach",
+          "Wrds Srch"
         ]
       },
-      "ZEP": {
-        "defaultName": "Zephaniah",
-        "defaultAbbreviation": "Zep",
+      "COP": {
+        "defaultName": "Epistle of Corinthians to Paul",
+        "defaultAbbreviation": "EpCor",
         "inputFields": [
-          "Zephaniah",
-          "Zep",
-          "Zphnh",
-          "Zefaniah",
-          "Zfnh"
+          "Epistle of Corinthians to Paul",
+          "EpCor",
+          "Ep Corinthians",
+          "Ep Crnthns",
+          "Ltr Corinthians",
+          "Ltr Crnthns"
         ]
       },
-      "HAG": {
-        "defaultName": "Haggai",
-        "defaultAbbreviation": "Hag",
+      "CO3": {
+        "defaultName": "3 Corinthians",
+        "defaultAbbreviation": "3 Cor",
         "inputFields": [
-          "Haggai",
-          "Hag",
-          "Hgg",
-          "Hagai"
+          "3 Corinthians",
+          "3 Cor",
+          "3 Crnthns"
         ]
       },
-      "ZEC": {
-        "defaultName": "Zechariah",
-        "defaultAbbreviation": "Zec",
+      "EUT": {
+        "defaultName": "Prayer of Euthalius",
+        "defaultAbbreviation": "Eut",
         "inputFields": [
-          "Zechariah",
-          "Zec",
-          "Zchrh"
+          "Prayer of Euthalius",
+          "Eut",
+          "Pr Eut"
         ]
       },
-      "MAL": {
-        "defaultName": "Malachi",
-        "defaultAbbreviation": "Mal",
+      "DOJ": {
+        "defaultName": "Dormition of John",
+        "defaultAbbreviation": "DoJ",
         "inputFields": [
-          "Malachi",
-          "Mal",
-          "Mlchi"
+          "Dormition of John",
+          "DoJ",
+          "Drm Jhn",
+          "Drm Jn"
         ]
       },
-      "MAT": {
-        "defaultName": "Matthew",
-        "defaultAbbreviation": "Mat",
+      "TTP": {
+        "defaultName": "Testaments of the Twelve Patriarchs",
+        "defaultAbbreviation": "Tst12",
         "inputFields": [
-          "Matthew",
-          "Mat",
-          "Mtthw",
-          "Mthw",
-          "Mtw",
-          "Mw",
-          "Saint Matthew",
-          "Saint Mtthw",
-          "Saint Mthw",
-          "Saint Mtw",
-          "Saint Mw"
+          "Testaments of the Twelve Patriarchs",
+          "Tst12",
+          "Tst 12P",
+          "Tst Twelve"
         ]
       },
-      "MRK": {
-        "defaultName": "Mark",
-        "defaultAbbreviation": "Mrk",
+      "JUB": {
+        "defaultName": "Jubilees",
+        "defaultAbbreviation": "Jub",
         "inputFields": [
-          "Mark",
-          "Mrk",
-          "Mk",
-          "Saint Mark",
-          "Saint Mrk",
-          "Saint Mk"
+          "Jubilees",
+          "Jub",
+          "Jbls"
         ]
       },
-      "LUK": {
-        "defaultName": "Luke",
-        "defaultAbbreviation": "Luk",
+      "ENO": {
+        "defaultName": "Enoch",
+        "defaultAbbreviation": "Eno",
         "inputFields": [
-          "Luke",
-          "Luk",
-          "Lke",
-          "Saint Luke",
-          "Saint Lk"
+          "Enoch",
+          "Eno",
+          "Ench",
+          "1 Enoch",
+          "1 Ench"
         ]
       },
-      "JHN": {
-        "defaultName": "John",
-        "defaultAbbreviation": "Jhn",
+      "EN2": {
+        "defaultName": "2 Enoch",
+        "defaultAbbreviation": "2 Eno",
         "inputFields": [
-          "John",
-          "Jhn",
-          "Jn",
-          "Saint John",
-          "Saint Jhn",
-          "Saint Jn"
+          "2 Enoch",
+          "2 Eno",
+          "2 Ench"
         ]
       },
-      "ACT": {
-        "defaultName": "Acts",
-        "defaultAbbreviation": "Act",
+      "EZA": {
+        "defaultName": "Apocalypse of Ezra",
+        "defaultAbbreviation": "ApEz",
         "inputFields": [
-          "Acts",
-          "Act",
-          "Ats",
-          "Acts of the Apostles"
+          "Apocalypse of Ezra",
+          "ApEz",
+          "Ap Ezra"
         ]
       },
-      "ROM": {
-        "defaultName": "Romans",
-        "defaultAbbreviation": "Rom",
+      "EZ5": {
+        "defaultName": "5 Ezra",
+        "defaultAbbreviation": "5 Ezr",
         "inputFields": [
-          "Romans",
-          "Rom",
-          "Rmns"
+          "5 Ezra",
+          "5 Ezr",
+          "5 Esdras"
         ]
       },
-      "CO1": {
-        "defaultName": "1 Corinthians",
-        "defaultAbbreviation": "1 Cor",
+      "EZ6": {
+        "defaultName": "6 Ezra",
+        "defaultAbbreviation": "6 Ezr",
         "inputFields": [
-          "1 Corinthians",
-          "1 Cor",
-          "1 Crnthns"
+          "6 Ezra",
+          "6 Ezr",
+          "6 Esdras"
         ]
       },
-      "CO2": {
-        "defaultName": "2 Corinthians",
-        "defaultAbbreviation": "2 Cor",
+      "REP": {
+        "defaultName": "Reproof",
+        "defaultAbbreviation": "Rep",
         "inputFields": [
-          "2 Corinthians",
-          "2 Cor",
-          "2 Crnthns"
+          "Reproof",
+          "Rep",
+          "Rprf"
         ]
       },
-      "GAL": {
-        "defaultName": "Galatians",
-        "defaultAbbreviation": "Gal",
+      "MQ1": {
+        "defaultName": "1 Meqabyan",
+        "defaultAbbreviation": "1 Meq",
         "inputFields": [
-          "Galatians",
-          "Gal",
-          "Gltns"
+          "1 Meqabyan",
+          "1 Meq",
+          "1 Mqbyn",
+          "1 Makabian",
+          "1 Mkbn",
+          "Mekabis of Benjamin",
+          "Mekabis Benjamin",
+          "Mkbs Bnjmn"
         ]
       },
-      "EPH": {
-        "defaultName": "Ephesians",
-        "defaultAbbreviation": "Eph",
+      "MQ2": {
+        "defaultName": "2 Meqabyan",
+        "defaultAbbreviation": "2 Meq",
         "inputFields": [
-          "Ephesians",
-          "Eph",
-          "Ephsns",
-          "Efsns"
+          "2 Meqabyan",
+          "2 Meq",
+          "2 Mqbyn",
+          "2 Makabian",
+          "2 Mkbn",
+          "Mekabis of Moab",
+          "Mekabis Moab",
+          "Mkbs Mb"
         ]
       },
-      "PHP": {
-        "defaultName": "Philippians",
-        "defaultAbbreviation": "Php",
+      "MQ3": {
+        "defaultName": "3 Meqabyan",
+        "defaultAbbreviation": "3 Meq",
         "inputFields": [
-          "Philippians",
-          "Php",
-          "Phlppns",
-          "Phlpns",
-          "Phillippians",
-          "Phillipians",
-          "Philipians",
-          "Flppns",
-          "Flpns"
+          "3 Meqabyan",
+          "3 Meq",
+          "3 Mqbyn",
+          "3 Makabian",
+          "3 Mkbn"
         ]
       },
-      "COL": {
-        "defaultName": "Colossians",
-        "defaultAbbreviation": "Col",
+      "BA2": {
+        "defaultName": "2 Baruch",
+        "defaultAbbreviation": "2 Bar",
         "inputFields": [
-          "Colossians",
-          "Col",
-          "Clssns",
-          "Clsns",
-          "Cllssns",
-          "Collosians",
-          "Collossians",
-          "Colosians"
+          "2 Baruch",
+          "2 Bar",
+          "2 Brch",
+          "Apocalypse of Baruch",
+          "Apoc of Baruch",
+          "Apoc Baruch"
         ]
       },
-      "TH1": {
-        "defaultName": "1 Thessalonians",
-        "defaultAbbreviation": "1 Thess",
+      "BA3": {
+        "defaultName": "3 Baruch",
+        "defaultAbbreviation": "3 Bar",
         "inputFields": [
-          "1 Thessalonians",
-          "1 Thess",
-          "1 Thsslns",
-          "1 Thslns",
-          "1 Thesallonians",
-          "1 Thessallonians",
-          "1 Thesalonians"
+          "3 Baruch",
+          "3 Bar",
+          "3 Brch"
         ]
       },
-      "TH2": {
-        "defaultName": "2 Thessalonians",
-        "defaultAbbreviation": "2 Thess",
+      "BA4": {
+        "defaultName": "4 Baruch",
+        "defaultAbbreviation": "4 Bar",
         "inputFields": [
-          "2 Thessalonians",
-          "2 Thess",
-          "2 Thsslns",
-          "2 Thslns",
-          "2 Thesallonians",
-          "2 Thessallonians",
-          "2 Thesalonians"
+          "4 Baruch",
+          "4 Bar",
+          "4 Brch",
+          "Paralipomenon of Jeremiah",
+          "Prlp of Jrmh",
+          "Rest of Words of Baruch"
         ]
       },
-      "TI1": {
-        "defaultName": "1 Timothy",
-        "defaultAbbreviation": "1 Tim",
+      "LBA": {
+        "defaultName": "Epistle of Baruch",
+        "defaultAbbreviation": "EpBar",
         "inputFields": [
-          "1 Timothy",
-          "1 Tim",
-          "1 Tmthy"
+          "Epistle of Baruch",
+          "EpBar",
+          "Ep Baruch",
+          "Ep Brch",
+          "Epi Baruch",
+          "Epis Baruch",
+          "Letter of Baruch",
+          "Ltr of Baruch",
+          "Ltr Baruch"
         ]
       },
-      "TI2": {
-        "defaultName": "2 Timothy",
-        "defaultAbbreviation": "2 Tim",
+      "LJB": {
+        "defaultName": "Epistle of Jeremiah (with Baruch)",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "2 Timothy",
-          "2 Tim",
-          "2 Tmthy"
+          "Epistle of Jeremiah (with Baruch)",
+          "EpJer",
+          "Ep Jer"
         ]
       },
-      "TIT": {
-        "defaultName": "Titus",
-        "defaultAbbreviation": "Tit",
+      "CL1": {
+        "defaultName": "1 Clement",
+        "defaultAbbreviation": "1 Cle",
         "inputFields": [
-          "Titus",
-          "Tit",
-          "Tts"
+          "1 Clement",
+          "1 Cle",
+          "1 Clmnt"
         ]
       },
-      "PHM": {
-        "defaultName": "Philemon",
-        "defaultAbbreviation": "Phm",
+      "CL2": {
+        "defaultName": "2 Clement",
+        "defaultAbbreviation": "2 Cle",
         "inputFields": [
-          "Philemon",
-          "Phm",
-          "Phlmn",
-          "Flmn"
+          "2 Clement",
+          "2 Cle",
+          "2 Clmnt"
         ]
       },
-      "HEB": {
-        "defaultName": "Hebrews",
-        "defaultAbbreviation": "Heb",
+      "SHE": {
+        "defaultName": "Shepherd of Hermas",
+        "defaultAbbreviation": "Her",
         "inputFields": [
-          "Hebrews",
-          "Heb",
-          "Hbrws"
+          "Shepherd of Hermas",
+          "Her",
+          "Hermas",
+          "Hrms",
+          "Shep Hermas"
         ]
       },
-      "JAM": {
-        "defaultName": "James",
-        "defaultAbbreviation": "Jam",
+      "DID": {
+        "defaultName": "Didache",
+        "defaultAbbreviation": "Did",
         "inputFields": [
-          "James",
-          "Jam",
-          "Jms",
-          "Jmes",
-          "Jas"
+          "Didache",
+          "Did",
+          "Ddch"
         ]
       },
-      "PE1": {
-        "defaultName": "1 Peter",
-        "defaultAbbreviation": "1 Pet",
+      "MOS": {
+        "defaultName": "Moses",
+        "defaultAbbreviation": "Mos",
         "inputFields": [
-          "1 Peter",
-          "1 Pet",
-          "1 Ptr"
+          "Moses",
+          "Mos",
+          "Mss"
         ]
       },
-      "PE2": {
-        "defaultName": "2 Peter",
-        "defaultAbbreviation": "2 Pet",
+      "SAM": {
+        "defaultName": "Samuel",
+        "defaultAbbreviation": "Sam",
         "inputFields": [
-          "2 Peter",
-          "2 Pet",
-          "2 Ptr"
+          "Samuel",
+          "Sam",
+          "Sml"
         ]
       },
-      "JN1": {
-        "defaultName": "1 John",
-        "defaultAbbreviation": "1 Jn",
+      "KGS": {
+        "defaultName": "Kings",
+        "defaultAbbreviation": "Kgs",
         "inputFields": [
-          "1 John",
-          "1 Jn",
-          "1 Jhn"
+          "Kings",
+          "Kgs",
+          "Kngs"
         ]
       },
-      "JN2": {
-        "defaultName": "2 John",
-        "defaultAbbreviation": "2 Jn",
+      "CHR": {
+        "defaultName": "Chronicles",
+        "defaultAbbreviation": "Chr",
         "inputFields": [
-          "2 John",
-          "2 Jn",
-          "2 Jhn"
+          "Chronicles",
+          "Chr",
+          "Chrncls"
         ]
       },
-      "JN3": {
-        "defaultName": "3 John",
-        "defaultAbbreviation": "3 Jn",
+      "EZN": {
+        "defaultName": "Ezra-Nehemiah",
+        "defaultAbbreviation": "EzNeh",
         "inputFields": [
-          "3 John",
-          "3 Jn",
-          "3 Jhn"
+          "Ezra-Nehemiah",
+          "EzNeh",
+          "Ezr Neh"
         ]
       },
-      "JDE": {
-        "defaultName": "Jude",
-        "defaultAbbreviation": "Jud",
+      "P12": {
+        "defaultName": "Twelve Prophets",
+        "defaultAbbreviation": "TwProp",
         "inputFields": [
-          "Jude",
-          "Jud",
-          "Jde"
+          "Twelve Prophets",
+          "TwProp",
+          "12 Prophets"
         ]
-      },
-      "REV": {
-        "defaultName": "Revelation",
-        "defaultAbbreviation": "Rev",
+      }
+    }
+  ],
+  "mbt": [
+    {
+      "OT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU",
+          "JOS",
+          "JDG",
+          "RUT",
+          "SA1",
+          "SA2",
+          "KI1",
+          "KI2",
+          "CH1",
+          "CH2",
+          "EZR",
+          "NEH",
+          "EST",
+          "JOB",
+          "PSA",
+          "PRO",
+          "ECC",
+          "SNG",
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "Daan ne Kasabutan",
+        "defaultAbbreviation": "DnK",
         "inputFields": [
-          "Revelation",
-          "Rev",
-          "Rvltn",
-          "Rvln"
+          "Daan ne Kasabutan",
+          "DnK",
+          "Daan Kasabutan",
+          "Tapey ne Kasabutan",
+          "Daan ne Tugon"
         ]
       },
-      "BAR": {
-        "defaultName": "Baruch",
-        "defaultAbbreviation": "Bar",
+      "NT": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN",
+          "ACT",
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB",
+          "JAM",
+          "PE1",
+          "PE2",
+          "JN1",
+          "JN2",
+          "JN3",
+          "JDE",
+          "REV"
+        ],
+        "defaultName": "Iyam ne Kasabutan",
+        "defaultAbbreviation": "InK",
         "inputFields": [
-          "Baruch",
-          "Bar",
-          "Brch"
+          "Iyam ne Kasabutan",
+          "InK",
+          "Iyam Kasabutan",
+          "Bag-u ne Kasabutan",
+          "Bag-o ne Tugon"
         ]
-      },
-      "DNG": {
-        "defaultName": "Daniel (Greek)",
-        "defaultAbbreviation": "Dn(Gk)",
+      }
+    },
+    {
+      "1 ": [
+        "I ",
+        "Hun-an ne ",
+        "An-anayan ne ",
+        "1st ",
+        "Saa ",
+        "Sabekan "
+      ],
+      "2 ": [
+        "II ",
+        "Igkarangeb ne ",
+        "Scnd ",
+        "2nd ",
+        "Duwa ",
+        "Daruwan "
+      ],
+      "3 ": [
+        "III ",
+        "Igkatelu ne ",
+        "Thrd ",
+        "3rd ",
+        "Telu ",
+        "Tatelun "
+      ],
+      "Saint ": [
+        "Santu ",
+        "Santo ",
+        "St ",
+        "Snt. ",
+        "St. "
+      ]
+    },
+    {
+      "GEN": {
+        "defaultName": "Hinisis",
+        "defaultAbbreviation": "Hin",
         "inputFields": [
-          "Daniel (Greek)",
-          "Dn(Gk)",
-          "DnlGk"
+          "Hinisis",
+          "Hin",
+          "Hinesis",
+          "Henesis",
+          "Henisis",
+          "Hn"
         ]
       },
-      "PAZ": {
-        "defaultName": "Prayer of Azariah",
-        "defaultAbbreviation": "PrAz",
+      "EXO": {
+        "defaultName": "Iksudu",
+        "defaultAbbreviation": "Iks",
         "inputFields": [
-          "Prayer of Azariah",
-          "PrAz",
-          "Pryr Azrh",
-          "Azariah"
+          "Iksudu",
+          "Iks",
+          "Eksudu",
+          "Iksd"
         ]
       },
-      "BEL": {
-        "defaultName": "Bel and the Dragon",
-        "defaultAbbreviation": "Bel",
+      "LEV": {
+        "defaultName": "Libitiku",
+        "defaultAbbreviation": "Lib",
         "inputFields": [
-          "Bel and the Dragon",
-          "Bel",
-          "BaD"
+          "Libitiku",
+          "Lib",
+          "Lebitiku",
+          "Lebetiku",
+          "Lebeteku",
+          "Lebiteku",
+          "Lbtk"
         ]
       },
-      "SUS": {
-        "defaultName": "Susanna",
-        "defaultAbbreviation": "Sus",
+      "NUM": {
+        "defaultName": "Numiru",
+        "defaultAbbreviation": "Num",
         "inputFields": [
-          "Susanna",
-          "Sus",
-          "Ssnn"
+          "Numiru",
+          "Num",
+          "Nmr"
         ]
       },
-      "GES": {
-        "defaultName": "Greek Esdras",
-        "defaultAbbreviation": "GrkEsd",
+      "DEU": {
+        "defaultName": "Diyuturunumiyu",
+        "defaultAbbreviation": "Diy",
         "inputFields": [
-          "Greek Esdras",
-          "GrkEsd",
-          "Gk Esdras",
-          "1 Esdras",
-          "2 Ezra"
+          "Diyuturunumiyu",
+          "Diy",
+          "Deyuturunumiyu",
+          "Dytrnmy"
         ]
       },
-      "LES": {
-        "defaultName": "2 Esdras",
-        "defaultAbbreviation": "2 Esd",
+      "JOS": {
+        "defaultName": "Huswi",
+        "defaultAbbreviation": "Huswi",
         "inputFields": [
-          "2 Esdras",
-          "2 Esd",
-          "2 Esdrs"
+          "Huswi",
+          "Hswi",
+          "Huswe",
+          "Juswi"
         ]
       },
-      "ESG": {
-        "defaultName": "Esther (Greek)",
-        "defaultAbbreviation": "EsGk",
+      "JDG": {
+        "defaultName": "Me Talewukum",
+        "defaultAbbreviation": "Tal",
         "inputFields": [
-          "Esther (Greek)",
-          "EsGk",
-          "EstGk"
+          "Me Talewukum",
+          "Tal",
+          "Tlwkm",
+          "Me Talawukum",
+          "Talawukum",
+          "Talaukum"
         ]
       },
-      "LJE": {
-        "defaultName": "Epistle of Jeremiah",
-        "defaultAbbreviation": "EpJer",
+      "RUT": {
+        "defaultName": "Rut",
+        "defaultAbbreviation": "Rut",
         "inputFields": [
-          "Epistle of Jeremiah",
-          "EpJer",
-          "Ep Jeremiah",
-          "Ep Jrm",
-          "Ltr Jeremiah",
-          "Ltr Jrm"
+          "Rut",
+          "Rt"
         ]
       },
-      "JDT": {
-        "defaultName": "Judith",
-        "defaultAbbreviation": "Jdt",
+      "SA1": {
+        "defaultName": "1 Samwil",
+        "defaultAbbreviation": "1 Sam",
         "inputFields": [
-          "Judith",
-          "Jdt",
-          "Jdth"
+          "1 Samwil",
+          "1 Sam",
+          "1 Smwl",
+          "1 Samwel"
         ]
       },
-      "MAN": {
-        "defaultName": "Prayer of Manasses",
-        "defaultAbbreviation": "Man",
+      "SA2": {
+        "defaultName": "2 Samwil",
+        "defaultAbbreviation": "2 Sam",
         "inputFields": [
-          "Prayer of Manasses",
-          "Man",
-          "Manasses",
-          "Manasseh",
-          "Mnss",
-          "Mnsh",
-          "Pryr Man"
+          "2 Samwil",
+          "2 Sam",
+          "2 Smwl",
+          "2 Samwel"
         ]
       },
-      "SIR": {
-        "defaultName": "Sirach",
-        "defaultAbbreviation": "Sir",
+      "KI1": {
+        "defaultName": "1 Hari",
+        "defaultAbbreviation": "1 Hari",
         "inputFields": [
-          "Sirach",
-          "Sir",
-          "Srch"
+          "1 Hari",
+          "1 Me Hari",
+          "1 Hri"
         ]
       },
-      "TOB": {
-        "defaultName": "Tobit",
-        "defaultAbbreviation": "Tob",
+      "KI2": {
+        "defaultName": "2 Hari",
+        "defaultAbbreviation": "2 Hari",
         "inputFields": [
-          "Tobit",
-          "Tob",
-          "Tobias",
-          "Tbt",
-          "Tbs"
+          "2 Hari",
+          "2 Me Hari",
+          "2 Hri"
         ]
       },
-      "WIS": {
-        "defaultName": "Wisdom of Solomon",
-        "defaultAbbreviation": "Wis",
+      "CH1": {
+        "defaultName": "1 Krunikas",
+        "defaultAbbreviation": "1 Kru",
         "inputFields": [
-          "Wisdom of Solomon",
-          "Wis",
-          "Wsdm of Slmn"
+          "1 Krunikas",
+          "1 Kru",
+          "1 Krnks"
         ]
       },
-      "MA1": {
-        "defaultName": "1 Maccabees",
-        "defaultAbbreviation": "1 Mac",
+      "CH2": {
+        "defaultName": "2 Krunikas",
+        "defaultAbbreviation": "2 Kru",
         "inputFields": [
-          "1 Maccabees",
-          "1 Mac",
-          "1 Mccbs",
-          "1 Mcbs"
+          "2 Krunikas",
+          "2 Kru",
+          "2 Krnks"
         ]
       },
-      "MA2": {
-        "defaultName": "2 Maccabees",
-        "defaultAbbreviation": "2 Mac",
+      "EZR": {
+        "defaultName": "Isra",
+        "defaultAbbreviation": "Isr",
         "inputFields": [
-          "2 Maccabees",
-          "2 Mac",
-          "2 Mccbs",
-          "2 Mcbs"
+          "Isra",
+          "Isr",
+          "Isdras",
+          "Isdrs",
+          "Esdras",
+          "Esdrs"
         ]
       },
-      "MA3": {
-        "defaultName": "3 Maccabees",
-        "defaultAbbreviation": "3 Mac",
+      "NEH": {
+        "defaultName": "Nihimiyas",
+        "defaultAbbreviation": "Nih",
         "inputFields": [
-          "3 Maccabees",
-          "3 Mac",
-          "3 Mccbs",
-          "3 Mcbs"
+          "Nihimiyas",
+          "Nih",
+          "Nhmys",
+          "Nehimiyas",
+          "Nehemiyas",
+          "Nehemeyas",
+          "Nehimeyas"
         ]
       },
-      "MA4": {
-        "defaultName": "4 Maccabees",
-        "defaultAbbreviation": "4 Mac",
+      "EST": {
+        "defaultName": "Istir",
+        "defaultAbbreviation": "Ist",
         "inputFields": [
-          "4 Maccabees",
-          "4 Mac",
-          "4 Mccbs",
-          "4 Mcbs"
+          "Istir",
+          "Ist",
+          "Estir",
+          "Istr"
         ]
       },
-      "MA5": {
-        "defaultName": "5 Maccabees",
-        "defaultAbbreviation": "5 Mac",
+      "JOB": {
+        "defaultName": "Hub",
+        "defaultAbbreviation": "Hub",
         "inputFields": [
-          "5 Maccabees",
-          "5 Mac",
-          "5 Mccbs",
-          "5 Mcbs"
+          "Hub",
+          "Hb",
+          "Jub"
         ]
       },
-      "PSB": {
-        "defaultName": "Psalms B",
-        "defaultAbbreviation": "LitPs",
+      "PSA": {
+        "defaultName": "Me Salmu",
+        "defaultAbbreviation": "Sal",
         "inputFields": [
-          "Psalms B",
-          "LitPs",
-          "Metrical Psalms",
-          "Mtrca Pslms",
-          "Alternative Psalms",
-          "Alt Psalms",
-          "Alt Pslms",
-          "Lit Psalms",
-          "Lit Pslms"
+          "Me Salmu",
+          "Sal",
+          "Slmu"
         ]
       },
-      "PS2": {
-        "defaultName": "Psalm 151",
-        "defaultAbbreviation": "Ps151",
+      "PRO": {
+        "defaultName": "Lalahen",
+        "defaultAbbreviation": "Lal",
         "inputFields": [
-          "Psalm 151",
-          "Ps151",
-          "Pslm 151"
+          "Lalahen",
+          "Lal",
+          "Me Lalahen",
+          "Lalahon",
+          "Llhn"
         ]
       },
-      "PS3": {
-        "defaultName": "Syriac Psalms",
-        "defaultAbbreviation": "SyrPs",
+      "ECC": {
+        "defaultName": "Iklisyastis",
+        "defaultAbbreviation": "Ikl",
         "inputFields": [
-          "Syriac Psalms",
-          "SyrPs",
-          "Syr Pslms"
+          "Iklisyastis",
+          "Ikl",
+          "Iklisiyastis",
+          "Eklisyastis",
+          "Eklesyastis",
+          "Iklsysts"
         ]
       },
-      "PSS": {
-        "defaultName": "Psalms of Solomon",
-        "defaultAbbreviation": "AddPs",
+      "SNG": {
+        "defaultName": "Ulahingen ni Sulumun",
+        "defaultAbbreviation": "UNS",
         "inputFields": [
-          "Psalms of Solomon",
-          "AddPs",
-          "Ps Sol",
-          "Slmn Pslms"
+          "Ulahingen ni Sulumun",
+          "UNS",
+          "Ulahingen ni Slmn",
+          "Ulahengen ni Slmn"
         ]
       },
-      "LAO": {
-        "defaultName": "Laodiceans",
-        "defaultAbbreviation": "Lao",
+      "ISA": {
+        "defaultName": "Isayas",
+        "defaultAbbreviation": "Isa",
         "inputFields": [
-          "Laodiceans",
-          "Lao",
-          "Eps Lao",
-          "Ltr Lao"
+          "Isayas",
+          "Isa",
+          "Esayas",
+          "Isys"
         ]
       },
-      "ODE": {
-        "defaultName": "Odes",
-        "defaultAbbreviation": "Ode",
+      "JER": {
+        "defaultName": "Hirimiyas",
+        "defaultAbbreviation": "Hir",
         "inputFields": [
-          "Odes",
-          "Ode",
-          "Odae"
+          "Hirimiyas",
+          "Hir",
+          "Hirmiyas",
+          "Herimiyas",
+          "Hiremiyas",
+          "Hrmys"
         ]
       },
-      "PSO": {
-        "defaultName": "Prayer of Solomon",
-        "defaultAbbreviation": "PrSol",
+      "LAM": {
+        "defaultName": "Pegkalange ni Hirimiyas",
+        "defaultAbbreviation": "Peg",
         "inputFields": [
-          "Prayer of Solomon",
-          "PrSol",
-          "Pryr Slm"
+          "Pegkalange ni Hirimiyas",
+          "Peg",
+          "Pigkalange",
+          "Pogkalange",
+          "Pgklange"
         ]
       },
-      "PJE": {
-        "defaultName": "Prayer of Jeremiah",
-        "defaultAbbreviation": "PrJer",
+      "EZE": {
+        "defaultName": "Isikil",
+        "defaultAbbreviation": "Isi",
         "inputFields": [
-          "Prayer of Jeremiah",
-          "PrJer",
-          "Pryr Jeremiah"
+          "Isikil",
+          "Isi",
+          "Isikyil",
+          "Isekil",
+          "Esikil",
+          "Iskl"
         ]
       },
-      "WSI": {
-        "defaultName": "Words of Sirach",
-        "defaultAbbreviation": "WrdsSir",
+      "DAN": {
+        "defaultName": "Danyil",
+        "defaultAbbreviation": "Dan",
         "inputFields": [
-          "Words of Sirach",
-          "WrdsSir",
-          "Wrds Sirach",
-          "Wrds Srch"
+          "Danyil",
+          "Dan",
+          "Danil",
+          "Dnyl"
         ]
       },
-      "COP": {
-        "defaultName": "Epistle of Corinthians to Paul",
-        "defaultAbbreviation": "EpCor",
+      "HOS": {
+        "defaultName": "Husiyas",
+        "defaultAbbreviation": "Hus",
         "inputFields": [
-          "Epistle of Corinthians to Paul",
-          "EpCor",
-          "Ep Corinthians",
-          "Ep Crnthns",
-          "Ltr Corinthians",
-          "Ltr Crnthns"
+          "Husiyas",
+          "Hus",
+          "Husiya",
+          "Hosiyas",
+          "Huseyas",
+          "Hsya"
         ]
       },
-      "CO3": {
-        "defaultName": "3 Corinthians",
-        "defaultAbbreviation": "3 Cor",
+      "JOL": {
+        "defaultName": "Huwil",
+        "defaultAbbreviation": "Huwil",
         "inputFields": [
-          "3 Corinthians",
-          "3 Cor",
-          "3 Crnthns"
+          "Huwil",
+          "Howil",
+          "Huwl",
+          "Hwl"
         ]
       },
-      "EUT": {
-        "defaultName": "Prayer of Euthalius",
-        "defaultAbbreviation": "Eut",
+      "AMO": {
+        "defaultName": "Amus",
+        "defaultAbbreviation": "Amu",
         "inputFields": [
-          "Prayer of Euthalius",
-          "Eut",
-          "Pr Eut"
+          "Amus",
+          "Amu",
+          "Amos",
+          "Ams"
         ]
       },
-      "DOJ": {
-        "defaultName": "Dormition of John",
-        "defaultAbbreviation": "DoJ",
+      "OBA": {
+        "defaultName": "Ubadiya",
+        "defaultAbbreviation": "Ubd",
         "inputFields": [
-          "Dormition of John",
-          "DoJ",
-          "Drm Jhn",
-          "Drm Jn"
+          "Ubadiya",
+          "Ubd",
+          "Ubadiyas",
+          "Obadiyas",
+          "Ubdiyas",
+          "Abdiyas",
+          "Abdy"
         ]
       },
-      "TTP": {
-        "defaultName": "Testaments of the Twelve Patriarchs",
-        "defaultAbbreviation": "Tst12",
+      "JNA": {
+        "defaultName": "Hunas",
+        "defaultAbbreviation": "Hun",
         "inputFields": [
-          "Testaments of the Twelve Patriarchs",
-          "Tst12",
-          "Tst 12P",
-          "Tst Twelve"
+          "Hunas",
+          "Hun",
+          "Junas",
+          "Juns"
         ]
       },
-      "JUB": {
-        "defaultName": "Jubilees",
-        "defaultAbbreviation": "Jub",
+      "MIC": {
+        "defaultName": "Mikiyas",
+        "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Jubilees",
-          "Jub",
-          "Jbls"
+          "Mikiyas",
+          "Mic",
+          "Mikyas",
+          "Miciyas",
+          "Miceyas",
+          "Meciyas",
+          "Mkys"
         ]
       },
-      "ENO": {
-        "defaultName": "Enoch",
-        "defaultAbbreviation": "Eno",
+      "NAH": {
+        "defaultName": "Nahum",
+        "defaultAbbreviation": "Nah",
         "inputFields": [
-          "Enoch",
-          "Eno",
-          "Ench",
-          "1 Enoch",
-          "1 Ench"
+          "Nahum",
+          "Nah",
+          "Nahm",
+          "Nahom",
+          "Nhum",
+          "Nhm"
         ]
       },
-      "EN2": {
-        "defaultName": "2 Enoch",
-        "defaultAbbreviation": "2 Eno",
+      "HAB": {
+        "defaultName": "Habakuk",
+        "defaultAbbreviation": "Hab",
         "inputFields": [
-          "2 Enoch",
-          "2 Eno",
-          "2 Ench"
+          "Habakuk",
+          "Hab",
+          "Hbkk",
+          "Habbakkuk",
+          "Habbakuk",
+          "Habakkuk",
+          "Habakok",
+          "Hbbkk"
         ]
       },
-      "EZA": {
-        "defaultName": "Apocalypse of Ezra",
-        "defaultAbbreviation": "ApEz",
+      "ZEP": {
+        "defaultName": "Supuniyas",
+        "defaultAbbreviation": "Sup",
         "inputFields": [
-          "Apocalypse of Ezra",
-          "ApEz",
-          "Ap Ezra"
+          "Supuniyas",
+          "Sup",
+          "Supunyas",
+          "Sopuniyas",
+          "Suponiyas",
+          "Spnys"
         ]
       },
-      "EZ5": {
-        "defaultName": "5 Ezra",
-        "defaultAbbreviation": "5 Ezr",
+      "HAG": {
+        "defaultName": "Hagiyu",
+        "defaultAbbreviation": "Hag",
         "inputFields": [
-          "5 Ezra",
-          "5 Ezr",
-          "5 Esdras"
+          "Hagiyu",
+          "Hag",
+          "Hgy",
+          "Haggiyu",
+          "Hageyu",
+          "Hagiyo"
         ]
       },
-      "EZ6": {
-        "defaultName": "6 Ezra",
-        "defaultAbbreviation": "6 Ezr",
+      "ZEC": {
+        "defaultName": "Sakariyas",
+        "defaultAbbreviation": "Sak",
         "inputFields": [
-          "6 Ezra",
-          "6 Ezr",
-          "6 Esdras"
+          "Sakariyas",
+          "Sak",
+          "Skrys",
+          "Sakkariyas",
+          "Sakareyas"
         ]
       },
-      "REP": {
-        "defaultName": "Reproof",
-        "defaultAbbreviation": "Rep",
+      "MAL": {
+        "defaultName": "Malakyas",
+        "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Reproof",
-          "Rep",
-          "Rprf"
+          "Malakyas",
+          "Mal",
+          "Mlkys",
+          "Malakiyas"
         ]
       },
-      "MQ1": {
-        "defaultName": "1 Meqabyan",
-        "defaultAbbreviation": "1 Meq",
+      "MAT": {
+        "defaultName": "Matiyu",
+        "defaultAbbreviation": "Mat",
         "inputFields": [
-          "1 Meqabyan",
-          "1 Meq",
-          "1 Mqbyn",
-          "1 Makabian",
-          "1 Mkbn",
-          "Mekabis of Benjamin",
-          "Mekabis Benjamin",
-          "Mkbs Bnjmn"
+          "Matiyu",
+          "Mat",
+          "Mtyu",
+          "Matyu",
+          "Mattiyu",
+          "Mateyu"
         ]
       },
-      "MQ2": {
-        "defaultName": "2 Meqabyan",
-        "defaultAbbreviation": "2 Meq",
+      "MRK": {
+        "defaultName": "Markus",
+        "defaultAbbreviation": "Mar",
         "inputFields": [
-          "2 Meqabyan",
-          "2 Meq",
-          "2 Mqbyn",
-          "2 Makabian",
-          "2 Mkbn",
-          "Mekabis of Moab",
-          "Mekabis Moab",
-          "Mkbs Mb"
+          "Markus",
+          "Mar",
+          "Mrks",
+          "Mks",
+          "Marcus",
+          "Markos",
+          "Marcos",
+          "Malkus"
         ]
       },
-      "MQ3": {
-        "defaultName": "3 Meqabyan",
-        "defaultAbbreviation": "3 Meq",
+      "LUK": {
+        "defaultName": "Lukas",
+        "defaultAbbreviation": "Luk",
         "inputFields": [
-          "3 Meqabyan",
-          "3 Meq",
-          "3 Mqbyn",
-          "3 Makabian",
-          "3 Mkbn"
+          "Lukas",
+          "Luk",
+          "Lks",
+          "Lucas"
         ]
       },
-      "BA2": {
-        "defaultName": "2 Baruch",
-        "defaultAbbreviation": "2 Bar",
+      "JHN": {
+        "defaultName": "Huwan",
+        "defaultAbbreviation": "Huw",
         "inputFields": [
-          "2 Baruch",
-          "2 Bar",
-          "2 Brch",
-          "Apocalypse of Baruch",
-          "Apoc of Baruch",
-          "Apoc Baruch"
+          "Huwan",
+          "Huw",
+          "Hwn",
+          "Juwan",
+          "Juan",
+          "Jn"
         ]
       },
-      "BA3": {
-        "defaultName": "3 Baruch",
-        "defaultAbbreviation": "3 Bar",
+      "ACT": {
+        "defaultName": "Me Himu",
+        "defaultAbbreviation": "Himu",
         "inputFields": [
-          "3 Baruch",
-          "3 Bar",
-          "3 Brch"
+          "Me Himu",
+          "Himu",
+          "Hmu",
+          "MeHimu"
         ]
       },
-      "BA4": {
-        "defaultName": "4 Baruch",
-        "defaultAbbreviation": "4 Bar",
+      "ROM": {
+        "defaultName": "Matig-Ruma",
+        "defaultAbbreviation": "Rum",
+        "inputFields": [
+          "Matig-Ruma",
+          "Rum",
+          "MatigRuma",
+          "Ruma",
+          "Rma",
+          "Rumanh"
+        ]
+      },
+      "CO1": {
+        "defaultName": "1 Matig-Kurintu",
+        "defaultAbbreviation": "1 Kur",
         "inputFields": [
-          "4 Baruch",
-          "4 Bar",
-          "4 Brch",
-          "Paralipomenon of Jeremiah",
-          "Prlp of Jrmh",
-          "Rest of Words of Baruch"
+          "1 Matig-Kurintu",
+          "1 Kur",
+          "1 MatigKurintu",
+          "1 Matig-Korintu",
+          "1 MatigKorintu",
+          "1 Kurintu",
+          "1 Korintu",
+          "1 Kurentu",
+          "1 Krntu"
         ]
       },
-      "LBA": {
-        "defaultName": "Epistle of Baruch",
-        "defaultAbbreviation": "EpBar",
+      "CO2": {
+        "defaultName": "2 Matig-Kurintu",
+        "defaultAbbreviation": "2 Kur",
         "inputFields": [
-          "Epistle of Baruch",
-          "EpBar",
-          "Ep Baruch",
-          "Ep Brch",
-          "Epi Baruch",
-          "Epis Baruch",
-          "Letter of Baruch",
-          "Ltr of Baruch",
-          "Ltr Baruch"
+          "2 Matig-Kurintu",
+          "2 Kur",
+          "2 MatigKurintu",
+          "2 Matig-Korintu",
+          "2 MatigKorintu",
+          "2 Kurintu",
+          "2 Korintu",
+          "2 Kurentu",
+          "2 Krntu"
         ]
       },
-      "LJB": {
-        "defaultName": "Epistle of Jeremiah (with Baruch)",
-        "defaultAbbreviation": "EpJer",
+      "GAL": {
+        "defaultName": "Matig-Galasya",
+        "defaultAbbreviation": "Gal",
         "inputFields": [
-          "Epistle of Jeremiah (with Baruch)",
-          "EpJer",
-          "Ep Jer"
+          "Matig-Galasya",
+          "Gal",
+          "MatigGalasya",
+          "MatigGalasoya",
+          "Matig-Galasoya",
+          "Galasiya",
+          "Galasya",
+          "Glsya"
         ]
       },
-      "CL1": {
-        "defaultName": "1 Clement",
-        "defaultAbbreviation": "1 Cle",
+      "EPH": {
+        "defaultName": "Matig-Ipisu",
+        "defaultAbbreviation": "Ipi",
         "inputFields": [
-          "1 Clement",
-          "1 Cle",
-          "1 Clmnt"
+          "Matig-Ipisu",
+          "Ipi",
+          "MatigIpisu",
+          "Matig-Episu",
+          "MatigEpisu",
+          "Ipisu",
+          "Ipsu"
         ]
       },
-      "CL2": {
-        "defaultName": "2 Clement",
-        "defaultAbbreviation": "2 Cle",
+      "PHP": {
+        "defaultName": "Matig-Pilipus",
+        "defaultAbbreviation": "Pil",
         "inputFields": [
-          "2 Clement",
-          "2 Cle",
-          "2 Clmnt"
+          "Matig-Pilipus",
+          "Pil",
+          "MatigPilipus",
+          "Matig-Pelipus",
+          "MatigPelipus",
+          "Pilipus",
+          "Plpus"
         ]
       },
-      "SHE": {
-        "defaultName": "Shepherd of Hermas",
-        "defaultAbbreviation": "Her",
+      "COL": {
+        "defaultName": "Matig-Kulusas",
+        "defaultAbbreviation": "Kul",
         "inputFields": [
-          "Shepherd of Hermas",
-          "Her",
-          "Hermas",
-          "Hrms",
-          "Shep Hermas"
+          "Matig-Kulusas",
+          "Kul",
+          "MatigKulusas",
+          "Matig-Kolusas",
+          "MatigKolusas",
+          "Kulusas",
+          "Klss"
         ]
       },
-      "DID": {
-        "defaultName": "Didache",
-        "defaultAbbreviation": "Did",
+      "TH1": {
+        "defaultName": "1 Matig-Tisalunika",
+        "defaultAbbreviation": "1 Tis",
         "inputFields": [
-          "Didache",
-          "Did",
-          "Ddch"
+          "1 Matig-Tisalunika",
+          "1 Tis",
+          "1 MatigTisalunika",
+          "1 Matig-Tisalonika",
+          "1 MatigTisalonika",
+          "1 Tisalunika",
+          "1 Tslnka"
         ]
       },
-      "PRF": {
-        "defaultName": "Preface",
-        "defaultAbbreviation": "Prf",
+      "TH2": {
+        "defaultName": "2 Matig-Tisalunika",
+        "defaultAbbreviation": "2 Tis",
         "inputFields": [
-          "Preface",
-          "Prf",
-          "Pre"
+          "2 Matig-Tisalunika",
+          "2 Tis",
+          "2 MatigTisalunika",
+          "2 Matig-Tisalonika",
+          "2 MatigTisalonika",
+          "2 Tisalunika",
+          "2 Tslnka"
         ]
       },
-      "ACK": {
-        "defaultName": "Acknowledgements",
-        "defaultAbbreviation": "Ack",
+      "TI1": {
+        "defaultName": "1 Timutiyu",
+        "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "Acknowledgements",
-          "Ack"
+          "1 Timutiyu",
+          "1 Tim",
+          "1 Timityu",
+          "1 Tmtyu"
         ]
       },
-      "INT": {
-        "defaultName": "Introduction",
-        "defaultAbbreviation": "Intr",
+      "TI2": {
+        "defaultName": "2 Timutiyu",
+        "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "Introduction",
-          "Intr"
+          "2 Timutiyu",
+          "2 Tim",
+          "2 Timityu",
+          "2 Tmtyu"
         ]
       },
-      "FRT": {
-        "defaultName": "Front Matter",
-        "defaultAbbreviation": "FrtMatter",
+      "TIT": {
+        "defaultName": "Titu",
+        "defaultAbbreviation": "Tit",
         "inputFields": [
-          "Front Matter",
-          "FrtMatter",
-          "FM"
+          "Titu",
+          "Tit",
+          "Ttu",
+          "Tito"
         ]
       },
-      "TOC": {
-        "defaultName": "Table of Contents",
-        "defaultAbbreviation": "ToC",
+      "PHM": {
+        "defaultName": "Pilimun",
+        "defaultAbbreviation": "Pilim",
         "inputFields": [
-          "Table of Contents",
-          "ToC"
+          "Pilimun",
+          "Pilim",
+          "Pelimun",
+          "Pilemun",
+          "Plmn"
         ]
       },
-      "BAK": {
-        "defaultName": "Back Matter",
-        "defaultAbbreviation": "Back",
+      "HEB": {
+        "defaultName": "Hibruwanen",
+        "defaultAbbreviation": "Heb",
         "inputFields": [
-          "Back Matter",
-          "Back",
-          "Bck"
+          "Hibruwanen",
+          "Heb",
+          "Hibruhanen",
+          "Hibruhanun",
+          "Hibruwanon",
+          "Hebruwanen",
+          "Hbrws"
         ]
       },
-      "MAP": {
-        "defaultName": "Maps",
-        "defaultAbbreviation": "Maps",
+      "JAM": {
+        "defaultName": "Santiyagu",
+        "defaultAbbreviation": "San",
         "inputFields": [
-          "Maps",
-          "Mps"
+          "Santiyagu",
+          "San",
+          "Sntygu",
+          "Hakubu",
+          "Hakobu",
+          "Santiyaggu",
+          "Sandiyagu",
+          "Sandiyaggu"
         ]
       },
-      "XXA": {
-        "defaultName": "Extra Book A",
-        "defaultAbbreviation": "ExtraA",
+      "PE1": {
+        "defaultName": "1 Pidru",
+        "defaultAbbreviation": "1 Pid",
         "inputFields": [
-          "Extra Book A",
-          "ExtraA"
+          "1 Pidru",
+          "1 Pid",
+          "1 Pidro",
+          "1 Pedru",
+          "1 Pedro",
+          "1 Pdru"
         ]
       },
-      "XXB": {
-        "defaultName": "Extra Book B",
-        "defaultAbbreviation": "ExtraB",
+      "PE2": {
+        "defaultName": "2 Pidru",
+        "defaultAbbreviation": "2 Pid",
         "inputFields": [
-          "Extra Book B",
-          "ExtraB"
+          "2 Pidru",
+          "2 Pid",
+          "2 Pidro",
+          "2 Pedru",
+          "2 Pedro",
+          "2 Pdru"
         ]
       },
-      "XXC": {
-        "defaultName": "Extra Book C",
-        "defaultAbbreviation": "ExtraC",
+      "JN1": {
+        "defaultName": "1 Huwan",
+        "defaultAbbreviation": "1 Huw",
         "inputFields": [
-          "Extra Book C",
-          "ExtraC"
+          "1 Huwan",
+          "1 Huw",
+          "1 Hwn",
+          "1 Hn",
+          "1 Juan",
+          "1 Jn"
         ]
       },
-      "XXD": {
-        "defaultName": "Extra Book D",
-        "defaultAbbreviation": "ExtraD",
+      "JN2": {
+        "defaultName": "2 Huwan",
+        "defaultAbbreviation": "2 Huw",
         "inputFields": [
-          "Extra Book D",
-          "ExtraD"
+          "2 Huwan",
+          "2 Huw",
+          "2 Hwn",
+          "2 Hn",
+          "2 Juan",
+          "2 Jn"
         ]
       },
-      "XXE": {
-        "defaultName": "Extra Book E",
-        "defaultAbbreviation": "ExtraE",
+      "JN3": {
+        "defaultName": "3 Huwan",
+        "defaultAbbreviation": "3 Huw",
         "inputFields": [
-          "Extra Book E",
-          "ExtraE"
+          "3 Huwan",
+          "3 Huw",
+          "3 Hwn",
+          "3 Hn",
+          "3 Juan",
+          "3 Jn"
         ]
       },
-      "XXF": {
-        "defaultName": "Extra Book F",
-        "defaultAbbreviation": "ExtraF",
+      "JDE": {
+        "defaultName": "Hudas",
+        "defaultAbbreviation": "Hud",
         "inputFields": [
-          "Extra Book F",
-          "ExtraF"
+          "Hudas",
+          "Hud",
+          "Hds",
+          "Huddas",
+          "Judas"
         ]
       },
-      "XXG": {
-        "defaultName": "Extra Book G",
-        "defaultAbbreviation": "ExtraG",
+      "REV": {
+        "defaultName": "Impakita",
+        "defaultAbbreviation": "Imp",
         "inputFields": [
-          "Extra Book G",
-          "ExtraG"
+          "Impakita",
+          "Imp",
+          "Empakita",
+          "Impkta",
+          "Gipadayag"
         ]
       }
     }
   ],
-  "spa_traditional": [
+  "por_traditional": [
     {
       "OT": {
         "includedBooks": [
@@ -10411,13 +10486,13 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-SPA-Ancien Testament",
-        "defaultAbbreviation": "XXX-SPA-AT",
+        "defaultName": "XXX-POR-Ancien Testament",
+        "defaultAbbreviation": "XXX-POR-AT",
         "inputFields": [
-          "XXX-SPA-Ancien Testament",
-          "XXX-SPA-AT",
-          "XXX-SPA-L'Ancien Testament",
-          "XXX-SPA-L'Ancien Tstmnt"
+          "XXX-POR-Ancien Testament",
+          "XXX-POR-AT",
+          "XXX-POR-L'Ancien Testament",
+          "XXX-POR-L'Ancien Tstmnt"
         ]
       },
       "PT": {
@@ -10428,16 +10503,16 @@
           "NUM",
           "DEU"
         ],
-        "defaultName": "XXX-SPA-Pentateuch",
-        "defaultAbbreviation": "XXX-SPA-Pent",
+        "defaultName": "XXX-POR-Pentateuch",
+        "defaultAbbreviation": "XXX-POR-Pent",
         "inputFields": [
-          "XXX-SPA-Pentateuch",
-          "XXX-SPA-Pnttch",
-          "XXX-SPA-Torah",
-          "XXX-SPA-Trh",
-          "XXX-SPA-Moses' books",
-          "XXX-SPA-Books of Moses",
-          "XXX-SPA-Bks of Moses"
+          "XXX-POR-Pentateuch",
+          "XXX-POR-Pnttch",
+          "XXX-POR-Torah",
+          "XXX-POR-Trh",
+          "XXX-POR-Moses' books",
+          "XXX-POR-Books of Moses",
+          "XXX-POR-Bks of Moses"
         ]
       },
       "MJ": {
@@ -10449,12 +10524,12 @@
           "DAN",
           "BAR"
         ],
-        "defaultName": "XXX-SPA-Major Prophets",
-        "defaultAbbreviation": "XXX-SPA-MajProps",
+        "defaultName": "XXX-POR-Major Prophets",
+        "defaultAbbreviation": "XXX-POR-MajProps",
         "inputFields": [
-          "XXX-SPA-Major Prophets",
-          "XXX-SPA-MajProps",
-          "XXX-SPA-Mjr Prphts"
+          "XXX-POR-Major Prophets",
+          "XXX-POR-MajProps",
+          "XXX-POR-Mjr Prphts"
         ]
       },
       "MN": {
@@ -10472,12 +10547,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "XXX-SPA-Minor Prophets",
-        "defaultAbbreviation": "XXX-SPA-MinProp",
+        "defaultName": "XXX-POR-Minor Prophets",
+        "defaultAbbreviation": "XXX-POR-MinProp",
         "inputFields": [
-          "XXX-SPA-Minor Prophets",
-          "XXX-SPA-MinProp",
-          "XXX-SPA-Mnr Prphts"
+          "XXX-POR-Minor Prophets",
+          "XXX-POR-MinProp",
+          "XXX-POR-Mnr Prphts"
         ]
       },
       "NT": {
@@ -10510,13 +10585,13 @@
           "JDE",
           "REV"
         ],
-        "defaultName": "XXX-SPA-Nouveau Testament",
-        "defaultAbbreviation": "XXX-SPA-NT",
+        "defaultName": "XXX-POR-Nouveau Testament",
+        "defaultAbbreviation": "XXX-POR-NT",
         "inputFields": [
-          "XXX-SPA-Nouveau Testament",
-          "XXX-SPA-NT",
-          "XXX-SPA-Le Nouveau Testament",
-          "XXX-SPA-Nv Tstmnt"
+          "XXX-POR-Nouveau Testament",
+          "XXX-POR-NT",
+          "XXX-POR-Le Nouveau Testament",
+          "XXX-POR-Nv Tstmnt"
         ]
       },
       "GO": {
@@ -10526,11 +10601,11 @@
           "LUK",
           "JHN"
         ],
-        "defaultName": "XXX-SPA-Gospels",
-        "defaultAbbreviation": "XXX-SPA-Gosp",
+        "defaultName": "XXX-POR-Gospels",
+        "defaultAbbreviation": "XXX-POR-Gosp",
         "inputFields": [
-          "XXX-SPA-Gospels",
-          "XXX-SPA-Gspls"
+          "XXX-POR-Gospels",
+          "XXX-POR-Gspls"
         ]
       },
       "PL": {
@@ -10550,82 +10625,82 @@
           "PHM",
           "HEB"
         ],
-        "defaultName": "XXX-SPA-Pauline Epistles",
-        "defaultAbbreviation": "XXX-SPA-EpPaul",
+        "defaultName": "XXX-POR-Pauline Epistles",
+        "defaultAbbreviation": "XXX-POR-EpPaul",
         "inputFields": [
-          "XXX-SPA-Pauline Epistles",
-          "XXX-SPA-EpPaul",
-          "XXX-SPA-Paul's epistles",
-          "XXX-SPA-Epistles of Paul",
-          "XXX-SPA-Ep of Paul",
-          "XXX-SPA-Letters of Paul",
-          "XXX-SPA-Ltrs of Paul",
-          "XXX-SPA-Paul's letters",
-          "XXX-SPA-Paul's ltrs"
+          "XXX-POR-Pauline Epistles",
+          "XXX-POR-EpPaul",
+          "XXX-POR-Paul's epistles",
+          "XXX-POR-Epistles of Paul",
+          "XXX-POR-Ep of Paul",
+          "XXX-POR-Letters of Paul",
+          "XXX-POR-Ltrs of Paul",
+          "XXX-POR-Paul's letters",
+          "XXX-POR-Paul's ltrs"
         ]
       }
     },
     {
       "1 ": [
         "I ",
-        "XXX-SPA-Premi\u00e8re ",
-        "XXX-SPA-Premiere ",
-        "XXX-SPA-Prmre ",
+        "XXX-POR-Première ",
+        "XXX-POR-Premiere ",
+        "XXX-POR-Prmre ",
         "1st ",
         "One "
       ],
       "2 ": [
         "II ",
-        "XXX-SPA-Seconde ",
-        "XXX-SPA-Scnde ",
+        "XXX-POR-Seconde ",
+        "XXX-POR-Scnde ",
         "2nd ",
         "Two "
       ],
       "3 ": [
         "III ",
-        "XXX-SPA-Troisi\u00e8me ",
-        "XXX-SPA-Troisieme ",
-        "XXX-SPA-Trsme ",
+        "XXX-POR-Troisième ",
+        "XXX-POR-Troisieme ",
+        "XXX-POR-Trsme ",
         "3rd ",
         "Three "
       ],
       "4 ": [
         "IV ",
-        "XXX-SPA-Quatri\u00e8me ",
-        "XXX-SPA-Quatrieme ",
-        "XXX-SPA-Qutrme ",
-        "XXX-SPA-Qtrme ",
+        "XXX-POR-Quatrième ",
+        "XXX-POR-Quatrieme ",
+        "XXX-POR-Qutrme ",
+        "XXX-POR-Qtrme ",
         "4th ",
         "Four "
       ],
       "5 ": [
         "V ",
-        "XXX-SPA-Cinqui\u00e8me ",
-        "XXX-SPA-Cinquieme ",
-        "XXX-SPA-Cnqme ",
+        "XXX-POR-Cinquième ",
+        "XXX-POR-Cinquieme ",
+        "XXX-POR-Cnqme ",
         "5th ",
         "Five "
       ],
       "6 ": [
         "VI ",
-        "XXX-SPA-Sixth ",
-        "XXX-SPA-Sxth ",
+        "XXX-POR-Sixth ",
+        "XXX-POR-Sxth ",
         "6th ",
         "Six "
       ],
       "Saint ": [
-        "XXX-SPA-Snt ",
-        "XXX-SPA-St ",
-        "XXX-SPA-Snt. ",
+        "XXX-POR-Snt ",
+        "XXX-POR-St ",
+        "XXX-POR-Snt. ",
         "St. "
       ]
     },
     {
       "GEN": {
-        "defaultName": "G\u00e9nesis",
+        "defaultName": "Gênesis",
         "defaultAbbreviation": "Gen",
         "inputFields": [
-          "G\u00e9nesis",
+          "Gênesis",
           "Gen",
           "Genese",
           "Gns",
@@ -10634,10 +10709,10 @@
         ]
       },
       "EXO": {
-        "defaultName": "\u00c9xodo",
+        "defaultName": "Êxodo",
         "defaultAbbreviation": "Exo",
         "inputFields": [
-          "\u00c9xodo",
+          "Êxodo",
           "Exo",
           "Exde",
           "L'Exode",
@@ -10647,10 +10722,10 @@
         ]
       },
       "LEV": {
-        "defaultName": "Lev\u00edtico",
+        "defaultName": "Levítico",
         "defaultAbbreviation": "Lev",
         "inputFields": [
-          "Lev\u00edtico",
+          "Levítico",
           "Lev",
           "Levitique",
           "Lvtque",
@@ -10659,10 +10734,10 @@
         ]
       },
       "NUM": {
-        "defaultName": "N\u00fameros",
+        "defaultName": "Números",
         "defaultAbbreviation": "Nom",
         "inputFields": [
-          "N\u00fameros",
+          "Números",
           "Nom",
           "Nmbrs",
           "4 Moses",
@@ -10670,10 +10745,10 @@
         ]
       },
       "DEU": {
-        "defaultName": "Deuteronomio",
+        "defaultName": "Deuteronômio",
         "defaultAbbreviation": "Deu",
         "inputFields": [
-          "Deuteronomio",
+          "Deuteronômio",
           "Deu",
           "Deuteronome",
           "Dtrnme",
@@ -10682,29 +10757,30 @@
         ]
       },
       "JOS": {
-        "defaultName": "Josu\u00e9",
+        "defaultName": "Josué",
         "defaultAbbreviation": "Jos",
         "inputFields": [
-          "Josu\u00e9",
+          "Josué",
           "Jos",
           "Josue",
           "Jsue"
         ]
       },
       "JDG": {
-        "defaultName": "Jueces",
+        "defaultName": "Juízes",
         "defaultAbbreviation": "Jug",
         "inputFields": [
-          "Jueces",
+          "Juízes",
           "Jug",
           "Jges",
           "Jgs"
         ]
       },
       "RUT": {
-        "defaultName": "Rut",
+        "defaultName": "Rute",
         "defaultAbbreviation": "Rut",
         "inputFields": [
+          "Rute",
           "Rut",
           "Rth"
         ]
@@ -10728,26 +10804,26 @@
         ]
       },
       "KI1": {
-        "defaultName": "1 Reyes",
+        "defaultName": "1 Reis",
         "defaultAbbreviation": "1 Rs",
         "inputFields": [
-          "1 Reyes",
+          "1 Reis",
           "1 Rs"
         ]
       },
       "KI2": {
-        "defaultName": "2 Reyes",
+        "defaultName": "2 Reis",
         "defaultAbbreviation": "2 Rs",
         "inputFields": [
-          "2 Reyes",
+          "2 Reis",
           "2 Rs"
         ]
       },
       "CH1": {
-        "defaultName": "1 Cr\u00f3nicas",
+        "defaultName": "1 Crônicas",
         "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "1 Cr\u00f3nicas",
+          "1 Crônicas",
           "1 Chr",
           "1 Chrnqs",
           "1 Croniqs",
@@ -10755,10 +10831,10 @@
         ]
       },
       "CH2": {
-        "defaultName": "2 Cr\u00f3nicas",
+        "defaultName": "2 Crônicas",
         "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "2 Cr\u00f3nicas",
+          "2 Crônicas",
           "2 Chr",
           "2 Chrnqs",
           "2 Croniqs",
@@ -10775,14 +10851,14 @@
         ]
       },
       "NEH": {
-        "defaultName": "Nehem\u00edas",
+        "defaultName": "Neemias",
         "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Nehem\u00edas",
+          "Neemias",
           "Neh",
           "Nhmie",
-          "Neh\u00e9mie",
-          "N\u00e9hemie",
+          "Nehémie",
+          "Néhemie",
           "Nehemie"
         ]
       },
@@ -10797,9 +10873,10 @@
         ]
       },
       "JOB": {
-        "defaultName": "Job",
+        "defaultName": "Jó",
         "defaultAbbreviation": "Job",
         "inputFields": [
+          "Jó",
           "Job",
           "Jb"
         ]
@@ -10814,32 +10891,32 @@
         ]
       },
       "PRO": {
-        "defaultName": "Proverbios",
+        "defaultName": "Provérbios",
         "defaultAbbreviation": "Pro",
         "inputFields": [
-          "Proverbios",
+          "Provérbios",
           "Pro",
           "Prvrbs",
           "Prvbs"
         ]
       },
       "ECC": {
-        "defaultName": "Eclesiast\u00e9s",
+        "defaultName": "Eclesiastes",
         "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Eclesiast\u00e9s",
+          "Eclesiastes",
           "Ecc",
           "Ecclesiaste",
-          "L'Eccl\u00e9siaste",
+          "L'Ecclésiaste",
           "L'Ecclesiaste",
           "Ecclst"
         ]
       },
       "SNG": {
-        "defaultName": "Cantares",
+        "defaultName": "Cânticos",
         "defaultAbbreviation": "Cnt",
         "inputFields": [
-          "Cantares",
+          "Cânticos",
           "Cnt",
           "Cantique des Cantiques",
           "Cnt de Slmn",
@@ -10848,46 +10925,46 @@
         ]
       },
       "ISA": {
-        "defaultName": "Isa\u00edas",
-        "defaultAbbreviation": "\u00c9sa",
+        "defaultName": "Isaías",
+        "defaultAbbreviation": "Ésa",
         "inputFields": [
-          "Isa\u00edas",
-          "\u00c9sa",
-          "Esa\u00efe",
+          "Isaías",
+          "Ésa",
+          "Esaïe",
           "Esaie"
         ]
       },
       "JER": {
-        "defaultName": "Jerem\u00edas",
-        "defaultAbbreviation": "J\u00e9r",
+        "defaultName": "Jeremias",
+        "defaultAbbreviation": "Jér",
         "inputFields": [
-          "Jerem\u00edas",
-          "J\u00e9r",
+          "Jeremias",
+          "Jér",
           "Jeremie",
-          "Jer\u00e9mie",
-          "J\u00e9remie",
+          "Jerémie",
+          "Jéremie",
           "Jrm"
         ]
       },
       "LAM": {
-        "defaultName": "Lamentaciones",
+        "defaultName": "Lamentações",
         "defaultAbbreviation": "Lam",
         "inputFields": [
-          "Lamentaciones",
+          "Lamentações",
           "Lam",
           "Lmnts"
         ]
       },
       "EZE": {
         "defaultName": "Ezequiel",
-        "defaultAbbreviation": "\u00c9z\u00e9",
+        "defaultAbbreviation": "Ézé",
         "inputFields": [
           "Ezequiel",
-          "\u00c9z\u00e9",
+          "Ézé",
           "Ezechiel",
-          "Ez\u00e9chiel",
-          "\u00c9zechiel",
-          "\u00c9zchl",
+          "Ezéchiel",
+          "Ézechiel",
+          "Ézchl",
           "Ezchl"
         ]
       },
@@ -10901,12 +10978,12 @@
         ]
       },
       "HOS": {
-        "defaultName": "Oseas",
-        "defaultAbbreviation": "Os\u00e8",
+        "defaultName": "Oséias",
+        "defaultAbbreviation": "Osè",
         "inputFields": [
-          "Oseas",
-          "Os\u00e8",
-          "Os\u00e9e",
+          "Oséias",
+          "Osè",
+          "Osée",
           "Osee"
         ]
       },
@@ -10915,111 +10992,110 @@
         "defaultAbbreviation": "Joel",
         "inputFields": [
           "Joel",
-          "Jol",
           "Jl"
         ]
       },
       "AMO": {
-        "defaultName": "Am\u00f3s",
+        "defaultName": "Amós",
         "defaultAbbreviation": "Amos",
         "inputFields": [
-          "Am\u00f3s",
+          "Amós",
           "Amos",
           "Ams"
         ]
       },
       "OBA": {
-        "defaultName": "Abd\u00edas",
+        "defaultName": "Obadias",
         "defaultAbbreviation": "Abd",
         "inputFields": [
-          "Abd\u00edas",
+          "Obadias",
           "Abd",
           "Abds"
         ]
       },
       "JNA": {
-        "defaultName": "Jon\u00e1s",
+        "defaultName": "Jonas",
         "defaultAbbreviation": "Jon",
         "inputFields": [
-          "Jon\u00e1s",
+          "Jonas",
           "Jon",
           "Jns"
         ]
       },
       "MIC": {
-        "defaultName": "Miqueas",
+        "defaultName": "Miquéias",
         "defaultAbbreviation": "Mic",
         "inputFields": [
-          "Miqueas",
+          "Miquéias",
           "Mic",
           "Michee",
-          "Mch\u00e9e",
+          "Mchée",
           "Mchee"
         ]
       },
       "NAH": {
-        "defaultName": "Nahum",
+        "defaultName": "Naum",
         "defaultAbbreviation": "Nah",
         "inputFields": [
-          "Nahum",
+          "Naum",
           "Nah",
           "Nahm",
           "Nhum"
         ]
       },
       "HAB": {
-        "defaultName": "Habacuc",
+        "defaultName": "Habacuque",
         "defaultAbbreviation": "Hab",
         "inputFields": [
-          "Habacuc",
+          "Habacuque",
           "Hab",
           "Habakuk",
           "Hbcc"
         ]
       },
       "ZEP": {
-        "defaultName": "Sofon\u00edas",
+        "defaultName": "Sofonias",
         "defaultAbbreviation": "Sop",
         "inputFields": [
-          "Sofon\u00edas",
+          "Sofonias",
           "Sop",
           "Sphnie"
         ]
       },
       "HAG": {
-        "defaultName": "Hageo",
+        "defaultName": "Ageu",
         "defaultAbbreviation": "Agg",
         "inputFields": [
-          "Hageo",
+          "Ageu",
           "Agg",
           "Aggee",
-          "Ag\u00e9e",
+          "Agée",
           "Agee"
         ]
       },
       "ZEC": {
-        "defaultName": "Zacar\u00edas",
+        "defaultName": "Zacarias",
         "defaultAbbreviation": "Zac",
         "inputFields": [
-          "Zacar\u00edas",
+          "Zacarias",
           "Zac",
           "Zchrie"
         ]
       },
       "MAL": {
-        "defaultName": "Malaqu\u00edas",
+        "defaultName": "Malaquias",
         "defaultAbbreviation": "Mal",
         "inputFields": [
-          "Malaqu\u00edas",
+          "Malaquias",
           "Mal",
           "Mlchie"
         ]
       },
       "MAT": {
-        "defaultName": "Mateo",
+        "defaultName": "Mateus",
         "defaultAbbreviation": "Mat",
         "inputFields": [
-          "Mateo",
+          "Mateus",
           "Mat",
           "Mtth",
           "Mth",
@@ -11035,6 +11111,7 @@
           "Marcos",
           "Mrc",
           "Mrk",
+          "Mrcs",
           "Mc",
           "Saint Marc",
           "Saint Mrc",
@@ -11053,20 +11130,20 @@
         ]
       },
       "JHN": {
-        "defaultName": "Juan",
+        "defaultName": "João",
         "defaultAbbreviation": "Jn",
         "inputFields": [
-          "Juan",
+          "João",
           "Jn",
           "Saint Jean",
           "Saint Jn"
         ]
       },
       "ACT": {
-        "defaultName": "Hechos",
+        "defaultName": "Atos dos Apóstolos",
         "defaultAbbreviation": "Act",
         "inputFields": [
-          "Hechos",
+          "Atos dos Apóstolos",
           "Act",
           "Acts"
         ]
@@ -11081,42 +11158,42 @@
         ]
       },
       "CO1": {
-        "defaultName": "1 Corintios",
+        "defaultName": "1 Coríntios",
         "defaultAbbreviation": "1 Cor",
         "inputFields": [
-          "1 Corintios",
+          "1 Coríntios",
           "1 Cor",
           "1 Crnthns"
         ]
       },
       "CO2": {
-        "defaultName": "2 Corintios",
+        "defaultName": "2 Coríntios",
         "defaultAbbreviation": "2 Cor",
         "inputFields": [
-          "2 Corintios",
+          "2 Coríntios",
           "2 Cor",
           "2 Crnthns"
         ]
       },
       "GAL": {
-        "defaultName": "G\u00e1latas",
+        "defaultName": "Gálatas",
         "defaultAbbreviation": "Gal",
         "inputFields": [
-          "G\u00e1latas",
+          "Gálatas",
           "Gal",
           "Glts"
         ]
       },
       "EPH": {
-        "defaultName": "Efesios",
-        "defaultAbbreviation": "\u00c9ph",
+        "defaultName": "Efésios",
+        "defaultAbbreviation": "Éph",
         "inputFields": [
-          "Efesios",
-          "\u00c9ph",
-          "Eph\u00e9siens",
-          "\u00c9phesiens",
+          "Efésios",
+          "Éph",
+          "Ephésiens",
+          "Éphesiens",
           "Ephesiens",
-          "\u00c9phsns",
+          "Éphsns",
           "Ephsns"
         ]
       },
@@ -11134,10 +11211,10 @@
         ]
       },
       "COL": {
-        "defaultName": "Colosenses",
+        "defaultName": "Colossenses",
         "defaultAbbreviation": "Col",
         "inputFields": [
-          "Colosenses",
+          "Colossenses",
           "Col",
           "Clssns",
           "Clsns",
@@ -11148,10 +11225,10 @@
         ]
       },
       "TH1": {
-        "defaultName": "1 Tesalonicenses",
+        "defaultName": "1 Tessalonicenses",
         "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "1 Tesalonicenses",
+          "1 Tessalonicenses",
           "1 Thess",
           "1 Thsslncns",
           "1 Thslns",
@@ -11161,10 +11238,10 @@
         ]
       },
       "TH2": {
-        "defaultName": "2 Tesalonicenses",
+        "defaultName": "2 Tessalonicenses",
         "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "2 Tesalonicenses",
+          "2 Tessalonicenses",
           "2 Thess",
           "2 Thsslncns",
           "2 Thslns",
@@ -11174,20 +11251,20 @@
         ]
       },
       "TI1": {
-        "defaultName": "1 Timoteo",
+        "defaultName": "1 Timóteo",
         "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "1 Timoteo",
+          "1 Timóteo",
           "1 Tim",
           "1 Tmth",
           "1 Timothee"
         ]
       },
       "TI2": {
-        "defaultName": "2 Timoteo",
+        "defaultName": "2 Timóteo",
         "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "2 Timoteo",
+          "2 Timóteo",
           "2 Tim",
           "2 Tmth",
           "2 Timothee"
@@ -11203,30 +11280,30 @@
         ]
       },
       "PHM": {
-        "defaultName": "Filem\u00f3n",
+        "defaultName": "Filemom",
         "defaultAbbreviation": "Phm",
         "inputFields": [
-          "Filem\u00f3n",
+          "Filemom",
           "Phm",
           "Phlmn",
           "Philemon"
         ]
       },
       "HEB": {
-        "defaultName": "Hebreos",
+        "defaultName": "Hebreus",
         "defaultAbbreviation": "Heb",
         "inputFields": [
-          "Hebreos",
+          "Hebreus",
           "Heb",
           "Hbrx",
           "Hebreux"
         ]
       },
       "JAM": {
-        "defaultName": "Santiago",
+        "defaultName": "Tiago",
         "defaultAbbreviation": "Jac",
         "inputFields": [
-          "Santiago",
+          "Tiago",
           "Jac",
           "Jcqs",
           "Saint Jacques",
@@ -11256,30 +11333,30 @@
         ]
       },
       "JN1": {
-        "defaultName": "1 Juan",
+        "defaultName": "1 João",
         "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "1 Juan",
+          "1 João",
           "1 Jn",
-          "1 Jun"
+          "1 Jo"
         ]
       },
       "JN2": {
-        "defaultName": "2 Juan",
+        "defaultName": "2 João",
         "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "2 Juan",
+          "2 João",
           "2 Jn",
-          "2 Jun"
+          "2 Jo"
         ]
       },
       "JN3": {
-        "defaultName": "3 Juan",
+        "defaultName": "3 João",
         "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "3 Juan",
+          "3 João",
           "3 Jn",
-          "3 Jun"
+          "3 Jo"
         ]
       },
       "JDE": {
@@ -11292,10 +11369,10 @@
         ]
       },
       "REV": {
-        "defaultName": "Apocalipsis",
+        "defaultName": "Apocalipse",
         "defaultAbbreviation": "Apo",
         "inputFields": [
-          "Apocalipsis",
+          "Apocalipse",
           "Apo",
           "Apclypse",
           "Apclpse"
@@ -11881,7 +11958,7 @@
       }
     }
   ],
-  "deu_traditional": [
+  "rus_traditional": [
     {
       "OT": {
         "includedBooks": [
@@ -11925,13 +12002,12 @@
           "ZEC",
           "MAL"
         ],
-        "defaultName": "Das Alte Testament",
-        "defaultAbbreviation": "AT",
+        "defaultName": "Old Testament",
+        "defaultAbbreviation": "OT",
         "inputFields": [
-          "Das Alte Testament",
-          "AT",
-          "Alte Testament",
-          "Alte Tstmnt"
+          "Old Testament",
+          "OT",
+          "Old Tstmnt"
         ]
       },
       "PT": {
@@ -11954,80 +12030,6 @@
           "Bks of Moses"
         ]
       },
-      "D1": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU",
-          "JOS",
-          "JDG",
-          "RUT",
-          "SA1",
-          "SA2",
-          "KI1",
-          "KI2",
-          "CH1",
-          "CH2",
-          "EZR",
-          "NEH",
-          "EST"
-        ],
-        "defaultName": "Geschichtb\u00fccher",
-        "defaultAbbreviation": "Geschicht",
-        "inputFields": [
-          "Geschichtb\u00fccher",
-          "Geschichtbucher",
-          "Gschchtbchr"
-        ]
-      },
-      "D2": {
-        "includedBooks": [
-          "JOB",
-          "PSA",
-          "PRO",
-          "ECC",
-          "SNG"
-        ],
-        "defaultName": "Lehrb\u00fccher und Psalmen",
-        "defaultAbbreviation": "LuP",
-        "inputFields": [
-          "Lehrb\u00fccher und Psalmen",
-          "LuP",
-          "Lehrbucher und Psalmen",
-          "Lehrb\u00fccher Psalmen",
-          "Lhrbchr und Pslmn"
-        ]
-      },
-      "PR": {
-        "includedBooks": [
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Prophetenb\u00fccher",
-        "defaultAbbreviation": "Prop",
-        "inputFields": [
-          "Prophetenb\u00fccher",
-          "Prophetenbucher",
-          "Prphtnbchr"
-        ]
-      },
       "MJ": {
         "includedBooks": [
           "ISA",
@@ -12098,71 +12100,12 @@
           "JDE",
           "REV"
         ],
-        "defaultName": "Das Neue Testament",
+        "defaultName": "New Testament",
         "defaultAbbreviation": "NT",
         "inputFields": [
-          "Das Neue Testament",
+          "New Testament",
           "NT",
-          "Neue Testament",
-          "Neue Tstmnt"
-        ]
-      },
-      "GA": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN",
-          "ACT"
-        ],
-        "defaultName": "Geschichtb\u00fccher",
-        "defaultAbbreviation": "NTGesch",
-        "inputFields": [
-          "Geschichtb\u00fccher",
-          "NTGesch",
-          "Geschichtbucher"
-        ]
-      },
-      "D3": {
-        "includedBooks": [
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "PE1",
-          "PE2",
-          "JN1",
-          "JN2",
-          "JN3",
-          "HEB",
-          "JAM",
-          "JDE"
-        ],
-        "defaultName": "Briefe",
-        "defaultAbbreviation": "Brf",
-        "inputFields": [
-          "Briefe",
-          "Brf"
-        ]
-      },
-      "d4": {
-        "includedBooks": [
-          "REV"
-        ],
-        "defaultName": "Prophetisches Buch",
-        "defaultAbbreviation": "PB",
-        "inputFields": [
-          "Prophetisches Buch",
-          "PB",
-          "Prphtschs Bch"
+          "Nw Tstmnt"
         ]
       },
       "GO": {
@@ -12214,37 +12157,37 @@
     {
       "1 ": [
         "I ",
-        "Erste ",
+        "First ",
         "Frst ",
         "1st ",
-        "Ein "
+        "One "
       ],
       "2 ": [
         "II ",
-        "Zweite ",
-        "Zwte ",
+        "Second ",
+        "Scnd ",
         "2nd ",
-        "Zwei "
+        "Two "
       ],
       "3 ": [
         "III ",
-        "Dritte ",
-        "Drtte ",
+        "Third ",
+        "Thrd ",
         "3rd ",
-        "Drei "
+        "Three "
       ],
       "4 ": [
         "IV ",
-        "Vierte ",
-        "Vrte ",
+        "Fourth ",
+        "Forth ",
+        "Frth ",
         "4th ",
         "Four "
       ],
       "5 ": [
         "V ",
-        "F\u00fcnfte ",
-        "Funfte ",
-        "Fnfte ",
+        "Fifth ",
+        "Ffth ",
         "5th ",
         "Five "
       ],
@@ -12254,2391 +12197,2448 @@
         "Sxth ",
         "6th ",
         "Six "
+      ],
+      "Saint ": [
+        "Snt ",
+        "St ",
+        "Snt. ",
+        "St. "
       ]
     },
     {
       "GEN": {
-        "defaultName": "1 Moses",
-        "defaultAbbreviation": "1 Mos",
+        "defaultName": "Бытие",
+        "defaultAbbreviation": "Быт",
         "inputFields": [
-          "1 Moses",
-          "1 Mos",
-          "1 Mss",
-          "Genesis",
-          "Gns"
+          "Бытие",
+          "Быт",
+          "Бытїѐ"
         ]
       },
       "EXO": {
-        "defaultName": "2 Moses",
-        "defaultAbbreviation": "2 Mos",
+        "defaultName": "Исход",
+        "defaultAbbreviation": "Исх",
         "inputFields": [
-          "2 Moses",
-          "2 Mos",
-          "2 Mss",
-          "Exodus",
-          "Exds"
+          "Исход",
+          "Исх",
+          "И҆схо́дъ"
         ]
       },
       "LEV": {
-        "defaultName": "3 Moses",
-        "defaultAbbreviation": "3 Mos",
+        "defaultName": "Левит",
+        "defaultAbbreviation": "Лев",
         "inputFields": [
-          "3 Moses",
-          "3 Mos",
-          "3 Mss",
-          "Levitikus",
-          "Lvtks"
+          "Левит",
+          "Лев",
+          "Леѵі́тъ"
         ]
       },
       "NUM": {
-        "defaultName": "4 Moses",
-        "defaultAbbreviation": "4 Mos",
+        "defaultName": "Числа",
+        "defaultAbbreviation": "Чис",
         "inputFields": [
-          "4 Moses",
-          "4 Mos",
-          "4 Mss",
-          "Numeri",
-          "Nmr"
+          "Числа",
+          "Чис",
+          "Чи́сла"
         ]
       },
       "DEU": {
-        "defaultName": "5 Moses",
-        "defaultAbbreviation": "5 Mos",
+        "defaultName": "Второзаконие",
+        "defaultAbbreviation": "Втор",
         "inputFields": [
-          "5 Moses",
-          "5 Mos",
-          "5 Mss",
-          "Deuteronomium",
-          "Dtrnmm"
+          "Второзаконие",
+          "Втор",
+          "Второзако́нїе"
         ]
       },
       "JOS": {
-        "defaultName": "Josua",
-        "defaultAbbreviation": "Jos",
+        "defaultName": "Иисус Навин",
+        "defaultAbbreviation": "Нав",
         "inputFields": [
-          "Josua",
-          "Jos",
-          "Js"
+          "Иисус Навин",
+          "Нав",
+          "Навин",
+          "Ї҆исѹ́са Наѵи́на"
         ]
       },
       "JDG": {
-        "defaultName": "Richter",
-        "defaultAbbreviation": "Rchtr",
+        "defaultName": "Судьи",
+        "defaultAbbreviation": "Суд",
         "inputFields": [
-          "Richter",
-          "Rchtr"
+          "Судьи",
+          "Суд",
+          "Сѹді́й ї҆сра́илевыхъ"
         ]
       },
       "RUT": {
-        "defaultName": "Rut",
-        "defaultAbbreviation": "Rut",
+        "defaultName": "Руфь",
+        "defaultAbbreviation": "Руфь",
         "inputFields": [
-          "Rut",
-          "Rt"
+          "Руфь",
+          "Рѹ́ѳь"
         ]
       },
       "SA1": {
-        "defaultName": "1 Samuel",
-        "defaultAbbreviation": "1 Sam",
+        "defaultName": "1-я Царств",
+        "defaultAbbreviation": "1 Цар",
         "inputFields": [
-          "1 Samuel",
-          "1 Sam",
-          "1 Sml"
+          "1-я Царств",
+          "1 Цар",
+          "а҃ ца́рствъ"
         ]
       },
       "SA2": {
-        "defaultName": "2 Samuel",
-        "defaultAbbreviation": "2 Sam",
+        "defaultName": "2-я Царств",
+        "defaultAbbreviation": "2 Цар",
         "inputFields": [
-          "2 Samuel",
-          "2 Sam",
-          "2 Sml"
+          "2-я Царств",
+          "2 Цар",
+          "в҃ ца́рствъ"
         ]
       },
       "KI1": {
-        "defaultName": "1 K\u00f6nige",
-        "defaultAbbreviation": "1 Kng",
+        "defaultName": "3-я Царств",
+        "defaultAbbreviation": "3 Цар",
         "inputFields": [
-          "1 K\u00f6nige",
-          "1 Kng"
+          "3-я Царств",
+          "3 Цар",
+          "г҃ ца́рствъ"
         ]
       },
       "KI2": {
-        "defaultName": "2 K\u00f6nige",
-        "defaultAbbreviation": "2 Kng",
+        "defaultName": "4-я Царств",
+        "defaultAbbreviation": "4 Цар",
         "inputFields": [
-          "2 K\u00f6nige",
-          "2 Kng"
+          "4-я Царств",
+          "4 Цар",
+          "д҃ ца́рствъ"
         ]
       },
       "CH1": {
-        "defaultName": "1 Chronik",
-        "defaultAbbreviation": "1 Chr",
+        "defaultName": "1-я Паралипоменон",
+        "defaultAbbreviation": "1 Пар",
         "inputFields": [
-          "1 Chronik",
-          "1 Chr",
-          "1 Chrnk",
-          "1 Cronik",
-          "1 Crnk"
+          "1-я Паралипоменон",
+          "1 Пар",
+          "а҃ паралипоме́нѡнъ"
         ]
       },
       "CH2": {
-        "defaultName": "2 Chronik",
-        "defaultAbbreviation": "2 Chr",
+        "defaultName": "2-я Паралипоменон",
+        "defaultAbbreviation": "2 Пар",
         "inputFields": [
-          "2 Chronik",
-          "2 Chr",
-          "2 Chrnk",
-          "2 Cronik",
-          "2 Crnk"
+          "2-я Паралипоменон",
+          "2 Пар",
+          "в҃ паралипоме́нѡнъ"
         ]
       },
       "EZR": {
-        "defaultName": "Esra",
-        "defaultAbbreviation": "Esr",
+        "defaultName": "Ездра",
+        "defaultAbbreviation": "Ездр",
         "inputFields": [
-          "Esra",
-          "Esr"
+          "Ездра",
+          "Ездр",
+          "а҃ е҆́здры",
+          "1 Ездра"
         ]
       },
       "NEH": {
-        "defaultName": "Nehemia",
-        "defaultAbbreviation": "Neh",
+        "defaultName": "Неемия",
+        "defaultAbbreviation": "Неем",
         "inputFields": [
-          "Nehemia",
-          "Neh",
-          "Nhmia"
+          "Неемия",
+          "Неем",
+          "Нм",
+          "Неемі́и"
         ]
       },
       "EST": {
-        "defaultName": "Ester",
-        "defaultAbbreviation": "Est",
+        "defaultName": "Есфирь",
+        "defaultAbbreviation": "Есф",
         "inputFields": [
-          "Ester",
-          "Est",
-          "Estr"
+          "Есфирь",
+          "Есф",
+          "Е҆сѳи́рь"
         ]
       },
       "JOB": {
-        "defaultName": "Hiob",
-        "defaultAbbreviation": "Hiob",
+        "defaultName": "Иов",
+        "defaultAbbreviation": "Иов",
         "inputFields": [
-          "Hiob",
-          "Hb",
-          "Jb"
+          "Иов",
+          "Ив",
+          "Іѡвъ"
         ]
       },
       "PSA": {
-        "defaultName": "Psalter",
-        "defaultAbbreviation": "Psa",
+        "defaultName": "Псалтирь",
+        "defaultAbbreviation": "Пс",
         "inputFields": [
-          "Psalter",
-          "Psa",
-          "Psltr",
-          "Psalm",
-          "Pslm"
+          "Псалтирь",
+          "Пс",
+          "Ѱалти́рь"
         ]
       },
       "PRO": {
-        "defaultName": "Spr\u00fcche",
-        "defaultAbbreviation": "Spr",
+        "defaultName": "Притчи",
+        "defaultAbbreviation": "Прит",
         "inputFields": [
-          "Spr\u00fcche",
-          "Spr",
-          "Sprch",
-          "Sprichw\u00f6rter"
+          "Притчи",
+          "Прит",
+          "При́тчей соломѡ́нихъ"
         ]
       },
       "ECC": {
-        "defaultName": "Prediger",
-        "defaultAbbreviation": "Pred",
+        "defaultName": "Екклесиаст",
+        "defaultAbbreviation": "Еккл",
         "inputFields": [
-          "Prediger",
-          "Pred",
-          "Prdgr",
-          "Kohelet",
-          "Khlt"
+          "Екклесиаст",
+          "Еккл",
+          "Е҆кклесїа́ст"
         ]
       },
       "SNG": {
-        "defaultName": "Hoheslied",
-        "defaultAbbreviation": "Hoh",
+        "defaultName": "Песня Песней",
+        "defaultAbbreviation": "Песн",
         "inputFields": [
-          "Hoheslied",
-          "Hoh",
-          "Hohelied Salomos",
-          "Hhld"
+          "Песня Песней",
+          "Песн",
+          "Псн",
+          "При́тчей соломѡ́нихъ",
+          "П́сн"
         ]
       },
       "ISA": {
-        "defaultName": "Jesaja",
-        "defaultAbbreviation": "Jes",
+        "defaultName": "Исаия",
+        "defaultAbbreviation": "Ис",
         "inputFields": [
-          "Jesaja",
-          "Jes",
-          "Jsj"
+          "Исаия",
+          "Ис",
+          "Кни́га проро́ка И҆са́їи"
         ]
       },
       "JER": {
-        "defaultName": "Jeremia",
-        "defaultAbbreviation": "Jer",
+        "defaultName": "Иеремия",
+        "defaultAbbreviation": "Иер",
         "inputFields": [
-          "Jeremia",
-          "Jer",
-          "Jrm"
+          "Иеремия",
+          "Иер",
+          "Ир",
+          "I҆еремі́и"
         ]
       },
       "LAM": {
-        "defaultName": "Klagelieder",
-        "defaultAbbreviation": "Klag",
+        "defaultName": "Плач Иеремии",
+        "defaultAbbreviation": "Плач",
         "inputFields": [
-          "Klagelieder",
-          "Klag",
-          "Klgldr"
+          "Плач Иеремии",
+          "Плач",
+          "Плч",
+          "Пла́чь ї҆еремі́евъ'"
         ]
       },
       "EZE": {
-        "defaultName": "Hesekiel",
-        "defaultAbbreviation": "Hes",
+        "defaultName": "Иезекииль",
+        "defaultAbbreviation": "Иез",
         "inputFields": [
-          "Hesekiel",
-          "Hes",
-          "Hskl",
-          "Ezechiel",
-          "Ezchl"
+          "Иезекииль",
+          "Иез",
+          "Из",
+          "I҆езекі́илѧ"
         ]
       },
       "DAN": {
-        "defaultName": "Daniel",
-        "defaultAbbreviation": "Dan",
+        "defaultName": "Даниил",
+        "defaultAbbreviation": "Дан",
         "inputFields": [
-          "Daniel",
-          "Dan",
-          "Dnl"
+          "Даниил",
+          "Дан",
+          "Дн",
+          "Данїи́ла"
         ]
       },
       "HOS": {
-        "defaultName": "Hosea",
-        "defaultAbbreviation": "Hos",
+        "defaultName": "Осия",
+        "defaultAbbreviation": "Ос",
         "inputFields": [
-          "Hosea",
-          "Hos",
-          "Hs"
+          "Осия",
+          "Ос",
+          "Ѡ҆сі́а"
         ]
       },
       "JOL": {
-        "defaultName": "Joel",
-        "defaultAbbreviation": "Joel",
+        "defaultName": "Иоиль",
+        "defaultAbbreviation": "Иоил",
         "inputFields": [
-          "Joel",
-          "Jl"
+          "Иоиль",
+          "Иоил",
+          "Иил",
+          "Ї҆ѡи́ль"
         ]
       },
       "AMO": {
-        "defaultName": "Amos",
-        "defaultAbbreviation": "Amos",
+        "defaultName": "Амос",
+        "defaultAbbreviation": "Ам",
         "inputFields": [
-          "Amos",
-          "Ams"
+          "Амос",
+          "Ам",
+          "А҆мѡ́с"
         ]
       },
       "OBA": {
-        "defaultName": "Obadja",
-        "defaultAbbreviation": "Oba",
+        "defaultName": "Авдий",
+        "defaultAbbreviation": "Авд",
         "inputFields": [
-          "Obadja",
-          "Oba",
-          "Obdj"
+          "Авдий",
+          "Авд",
+          "А҆вді́й"
         ]
       },
       "JNA": {
-        "defaultName": "Jona",
-        "defaultAbbreviation": "Jon",
+        "defaultName": "Иона",
+        "defaultAbbreviation": "Ион",
         "inputFields": [
-          "Jona",
-          "Jon",
-          "Jna"
+          "Иона",
+          "Ион",
+          "I҆ѡ́на"
         ]
       },
       "MIC": {
-        "defaultName": "Micha",
-        "defaultAbbreviation": "Mic",
+        "defaultName": "Михей",
+        "defaultAbbreviation": "Мих",
         "inputFields": [
-          "Micha",
-          "Mic",
-          "Mcha"
+          "Михей",
+          "Мих",
+          "Мх",
+          "Мїхе́й"
         ]
       },
       "NAH": {
-        "defaultName": "Nahum",
-        "defaultAbbreviation": "Nah",
+        "defaultName": "Наум",
+        "defaultAbbreviation": "Наум",
         "inputFields": [
-          "Nahum",
-          "Nah",
-          "Nahm",
-          "Nhum",
-          "Nhm"
+          "Наум",
+          "Нум",
+          "Наѹ́мъ"
         ]
       },
       "HAB": {
-        "defaultName": "Habakuk",
-        "defaultAbbreviation": "Hab",
+        "defaultName": "Аввакум",
+        "defaultAbbreviation": "Авв",
         "inputFields": [
-          "Habakuk",
-          "Hab",
-          "Hbkk"
+          "Аввакум",
+          "Авв",
+          "А҆ввакѹ́мъ"
         ]
       },
       "ZEP": {
-        "defaultName": "Zefanja",
-        "defaultAbbreviation": "Zef",
+        "defaultName": "Софония",
+        "defaultAbbreviation": "Соф",
         "inputFields": [
-          "Zefanja",
-          "Zef",
-          "Zfnja"
+          "Софония",
+          "Соф",
+          "Сф",
+          "Софо́нїа"
         ]
       },
       "HAG": {
-        "defaultName": "Haggai",
-        "defaultAbbreviation": "Hag",
+        "defaultName": "Аггей",
+        "defaultAbbreviation": "Агг",
         "inputFields": [
-          "Haggai",
-          "Hag",
-          "Hgg",
-          "Hagai"
+          "Аггей",
+          "Агг",
+          "А҆гге́й"
         ]
       },
       "ZEC": {
-        "defaultName": "Sacharja",
-        "defaultAbbreviation": "Sach",
+        "defaultName": "Захария",
+        "defaultAbbreviation": "Зах",
         "inputFields": [
-          "Sacharja",
-          "Sach",
-          "Schrja"
+          "Захария",
+          "Зах",
+          "Зх",
+          "Заха́рїа"
         ]
       },
       "MAL": {
-        "defaultName": "Maleachi",
-        "defaultAbbreviation": "Mal",
+        "defaultName": "Малахия",
+        "defaultAbbreviation": "Мал",
         "inputFields": [
-          "Maleachi",
-          "Mal",
-          "Mlchi"
+          "Малахия",
+          "Мал",
+          "Мл",
+          "Малахі́а"
         ]
       },
       "MAT": {
-        "defaultName": "Matth\u00e4us",
-        "defaultAbbreviation": "Mat",
+        "defaultName": "От Матфея",
+        "defaultAbbreviation": "Мат",
         "inputFields": [
-          "Matth\u00e4us",
-          "Mat",
-          "Matthaus",
-          "Mtths",
-          "Mths"
+          "От Матфея",
+          "Мат",
+          "Мт",
+          "Ѿ матѳе́а",
+          "матѳе́а"
         ]
       },
       "MRK": {
-        "defaultName": "Markus",
-        "defaultAbbreviation": "Mrk",
+        "defaultName": "От Марка",
+        "defaultAbbreviation": "Мар",
         "inputFields": [
-          "Markus",
-          "Mrk",
-          "Mrks",
-          "Mks"
+          "От Марка",
+          "Мар",
+          "Мр",
+          "Ѿ ма́рка",
+          "ма́рка"
         ]
       },
       "LUK": {
-        "defaultName": "Lukas",
-        "defaultAbbreviation": "Luk",
+        "defaultName": "От Луки",
+        "defaultAbbreviation": "Лук",
         "inputFields": [
-          "Lukas",
-          "Luk",
-          "Lks"
+          "От Луки",
+          "Лук",
+          "Лк",
+          "Ѿ лѹкѝ",
+          "лѹкѝ"
         ]
       },
       "JHN": {
-        "defaultName": "Johannes",
-        "defaultAbbreviation": "Jhn",
+        "defaultName": "От Иоанна",
+        "defaultAbbreviation": "Ин",
         "inputFields": [
-          "Johannes",
-          "Jhn",
-          "Jhnns",
-          "Jn"
+          "От Иоанна",
+          "Ин",
+          "Ѿ ї҆ѡа́нна",
+          "ї҆ѡа́нна"
         ]
       },
       "ACT": {
-        "defaultName": "Apostelgeschichte",
-        "defaultAbbreviation": "Apst",
+        "defaultName": "Деяния",
+        "defaultAbbreviation": "Деян",
         "inputFields": [
-          "Apostelgeschichte",
-          "Apst",
-          "Apstlgschchte"
+          "Деяния",
+          "Деян",
+          "Дян",
+          "Дѣѧ҄нїѧ"
         ]
       },
       "ROM": {
-        "defaultName": "R\u00f6mer",
-        "defaultAbbreviation": "R\u00f6m",
+        "defaultName": "К Римлянам",
+        "defaultAbbreviation": "Рим",
         "inputFields": [
-          "R\u00f6mer",
-          "R\u00f6m",
-          "Romer",
-          "Rmr"
+          "К Римлянам",
+          "Рим",
+          "Рм",
+          "Къ ри́млѧнѡмъ",
+          "ри́млѧнѡмъ"
         ]
       },
       "CO1": {
-        "defaultName": "1 Korinther",
-        "defaultAbbreviation": "1 Kor",
-        "inputFields": [
-          "1 Korinther",
-          "1 Kor",
-          "1 Krnthr"
-        ]
-      },
-      "CO2": {
-        "defaultName": "2 Korinther",
-        "defaultAbbreviation": "2 Kor",
-        "inputFields": [
-          "2 Korinther",
-          "2 Kor",
-          "2 Krnthr"
-        ]
-      },
-      "GAL": {
-        "defaultName": "Galater",
-        "defaultAbbreviation": "Gal",
-        "inputFields": [
-          "Galater",
-          "Gal",
-          "Gltr"
-        ]
-      },
-      "EPH": {
-        "defaultName": "Epheser",
-        "defaultAbbreviation": "Eph",
-        "inputFields": [
-          "Epheser",
-          "Eph",
-          "Ephsr"
-        ]
-      },
-      "PHP": {
-        "defaultName": "Philipper",
-        "defaultAbbreviation": "Php",
-        "inputFields": [
-          "Philipper",
-          "Php",
-          "Phlppr",
-          "Phlpr"
-        ]
-      },
-      "COL": {
-        "defaultName": "Kolosser",
-        "defaultAbbreviation": "Kol",
+        "defaultName": "1-е Коринфянам",
+        "defaultAbbreviation": "1 Кор",
         "inputFields": [
-          "Kolosser",
-          "Kol",
-          "Klssr",
-          "Klsr"
+          "1-е Коринфянам",
+          "1 Кор",
+          "1 Кр",
+          "а҃ къ корі́нѳѧнѡмъ"
         ]
-      },
-      "TH1": {
-        "defaultName": "1 Thessalonicher",
-        "defaultAbbreviation": "1 Thess",
+      },
+      "CO2": {
+        "defaultName": "2-е Коринфянам",
+        "defaultAbbreviation": "2 Кор",
         "inputFields": [
-          "1 Thessalonicher",
-          "1 Thess",
-          "1 Thsslchr",
-          "1 Thslchr"
+          "2-е Коринфянам",
+          "2 Кор",
+          "2 Кр",
+          "в҃ къ корі́нѳѧнѡмъ"
         ]
       },
-      "TH2": {
-        "defaultName": "2 Thessalonicher",
-        "defaultAbbreviation": "2 Thess",
+      "GAL": {
+        "defaultName": "К Галатам",
+        "defaultAbbreviation": "Гал",
         "inputFields": [
-          "2 Thessalonicher",
-          "2 Thess",
-          "2 Thsslchr",
-          "2 Thslchr"
+          "К Галатам",
+          "Гал",
+          "Гл",
+          "Къ гала́тѡмъ",
+          "гала́тѡмъ"
         ]
       },
-      "TI1": {
-        "defaultName": "1 Timotheus",
-        "defaultAbbreviation": "1 Tim",
+      "EPH": {
+        "defaultName": "К Ефесянам",
+        "defaultAbbreviation": "Еф",
         "inputFields": [
-          "1 Timotheus",
-          "1 Tim",
-          "1 Tmths"
+          "К Ефесянам",
+          "Еф",
+          "Ко є҆фесе́ємъ",
+          "є҆фесе́ємъ"
         ]
       },
-      "TI2": {
-        "defaultName": "2 Timotheus",
-        "defaultAbbreviation": "2 Tim",
+      "PHP": {
+        "defaultName": "К Филиппийцам",
+        "defaultAbbreviation": "Флп",
         "inputFields": [
-          "2 Timotheus",
-          "2 Tim",
-          "2 Tmths"
+          "К Филиппийцам",
+          "Флп",
+          "Фп",
+          "Къ фъ фїлїпписі́ємъ",
+          "фъ фїлїпписі́ємъ",
+          "фїлїпписі́ємъ"
         ]
       },
-      "TIT": {
-        "defaultName": "Titus",
-        "defaultAbbreviation": "Tit",
+      "COL": {
+        "defaultName": "К Колоссянам",
+        "defaultAbbreviation": "Кол",
         "inputFields": [
-          "Titus",
-          "Tit",
-          "Tts"
+          "К Колоссянам",
+          "Кол",
+          "Кл",
+          "Къ колосса́ємъ",
+          "колосса́ємъ"
         ]
       },
-      "PHM": {
-        "defaultName": "Philemon",
-        "defaultAbbreviation": "Phm",
+      "TH1": {
+        "defaultName": "1-е Фессалоникийцам",
+        "defaultAbbreviation": "1 Фес",
         "inputFields": [
-          "Philemon",
-          "Phm",
-          "Phlmn"
+          "1-е Фессалоникийцам",
+          "1 Фес",
+          "1 Фс",
+          "а҃ къ солѹ́нѧнѡмъ",
+          "а҃ солѹ́нѧнѡмъ"
         ]
       },
-      "PE1": {
-        "defaultName": "1 Petrus",
-        "defaultAbbreviation": "1 Pet",
+      "TH2": {
+        "defaultName": "2-е Фессалоникийцам",
+        "defaultAbbreviation": "2 Фес",
         "inputFields": [
-          "1 Petrus",
-          "1 Pet",
-          "1 Ptrs"
+          "2-е Фессалоникийцам",
+          "2 Фес",
+          "2 Фс",
+          "в҃ къ солѹ́нѧнѡмъ",
+          "в҃ солѹ́нѧнѡмъ"
         ]
       },
-      "PE2": {
-        "defaultName": "2 Petrus",
-        "defaultAbbreviation": "2 Pet",
+      "TI1": {
+        "defaultName": "1-е Тимофею",
+        "defaultAbbreviation": "1 Тим",
         "inputFields": [
-          "2 Petrus",
-          "2 Pet",
-          "2 Ptrs"
+          "1-е Тимофею",
+          "1 Тим",
+          "1 Тм",
+          "а҃ къ тїмоѳе́ю",
+          "а҃ тїмоѳе́ю",
+          "а҃ тмоѳе́ю"
         ]
       },
-      "JN1": {
-        "defaultName": "1 Johannes",
-        "defaultAbbreviation": "1 Jn",
+      "TI2": {
+        "defaultName": "2-е Тимофею",
+        "defaultAbbreviation": "2 Тим",
         "inputFields": [
-          "1 Johannes",
-          "1 Jn",
-          "1 Jhnns",
-          "1 Jns",
-          "1 Johanes",
-          "1 Johhanes",
-          "1 Johhannes"
+          "2-е Тимофею",
+          "2 Тим",
+          "2 Тм",
+          "в҃ къ тїмоѳе́ю",
+          "в҃ тїмоѳе́ю",
+          "в҃ тмоѳе́ю"
         ]
       },
-      "JN2": {
-        "defaultName": "2 Johannes",
-        "defaultAbbreviation": "2 Jn",
+      "TIT": {
+        "defaultName": "К Титу",
+        "defaultAbbreviation": "Тит",
         "inputFields": [
-          "2 Johannes",
-          "2 Jn",
-          "2 Jhnns",
-          "2 Jns",
-          "2 Johanes",
-          "2 Johhanes",
-          "2 Johhannes"
+          "К Титу",
+          "Тит",
+          "Тту",
+          "Къ ті́тѹ",
+          "ті́тѹ"
         ]
       },
-      "JN3": {
-        "defaultName": "3 Johannes",
-        "defaultAbbreviation": "3 Jn",
+      "PHM": {
+        "defaultName": "К Филимону",
+        "defaultAbbreviation": "Флм",
         "inputFields": [
-          "3 Johannes",
-          "3 Jn",
-          "3 Jhnns",
-          "3 Jns",
-          "3 Johanes",
-          "3 Johhanes",
-          "3 Johhannes"
+          "К Филимону",
+          "Флм",
+          "Фм",
+          "Къ фїлимо́нѹ",
+          "фїлимо́нѹ"
         ]
       },
       "HEB": {
-        "defaultName": "Hebr\u00e4er",
-        "defaultAbbreviation": "Heb",
+        "defaultName": "К Евреям",
+        "defaultAbbreviation": "Евр",
         "inputFields": [
-          "Hebr\u00e4er",
-          "Heb",
-          "Hebraer",
-          "Hbrr"
+          "К Евреям",
+          "Евр",
+          "Ко є҆вре́ємъ",
+          "є҆вре́ємъ"
         ]
       },
       "JAM": {
-        "defaultName": "Jakobus",
-        "defaultAbbreviation": "Jak",
+        "defaultName": "Иакова",
+        "defaultAbbreviation": "Иак",
         "inputFields": [
-          "Jakobus",
-          "Jak",
-          "Jkbs"
+          "Иакова",
+          "Иак",
+          "Икв",
+          "Посла́нїе ї҆а́кѡвле",
+          "ї҆а́кѡвле"
         ]
       },
-      "JDE": {
-        "defaultName": "Judas",
-        "defaultAbbreviation": "Jud",
+      "PE1": {
+        "defaultName": "1-е Петра",
+        "defaultAbbreviation": "1 Пет",
         "inputFields": [
-          "Judas",
-          "Jud",
-          "Jds"
+          "1-е Петра",
+          "1 Пет",
+          "1 Птр",
+          "а҃ петра̀",
+          "а҃ птра̀"
         ]
       },
-      "REV": {
-        "defaultName": "Offenbarung",
-        "defaultAbbreviation": "Off",
+      "PE2": {
+        "defaultName": "2-е Петра",
+        "defaultAbbreviation": "2 Пет",
         "inputFields": [
-          "Offenbarung",
-          "Off",
-          "Offnbrng",
-          "Ofnbrng"
+          "2-е Петра",
+          "2 Пет",
+          "2 Птр",
+          "в҃ петра̀",
+          "в҃ птра̀"
         ]
       },
-      "BAR": {
-        "defaultName": "Baruch",
-        "defaultAbbreviation": "Bar",
+      "JN1": {
+        "defaultName": "1-е Иоанна",
+        "defaultAbbreviation": "1 Ин",
         "inputFields": [
-          "Baruch",
-          "Bar",
-          "Brch"
+          "1-е Иоанна",
+          "1 Ин",
+          "а҃ ї҆ѡа́нна бг҃осло́ва",
+          "а҃ ї҆ѡ́нна бг҃осло́ва",
+          "1 Їѡ"
         ]
       },
-      "DNG": {
-        "defaultName": "Daniel (Greek)",
-        "defaultAbbreviation": "Dn(Gk)",
+      "JN2": {
+        "defaultName": "2-е Иоанна",
+        "defaultAbbreviation": "2 Ин",
         "inputFields": [
-          "Daniel (Greek)",
-          "Dn(Gk)",
-          "DnlGk"
+          "2-е Иоанна",
+          "2 Ин",
+          "в҃ ї҆ѡа́нна бг҃осло́ва",
+          "в҃ ї҆ѡ́нна бг҃осло́ва",
+          "2 Їѡ"
         ]
       },
-      "PAZ": {
-        "defaultName": "Prayer of Azariah",
-        "defaultAbbreviation": "PrAz",
+      "JN3": {
+        "defaultName": "3-е Иоанна",
+        "defaultAbbreviation": "3 Ин",
         "inputFields": [
-          "Prayer of Azariah",
-          "PrAz",
-          "Pryr Azrh"
+          "3-е Иоанна",
+          "3 Ин",
+          "г҃ ї҆ѡа́нна бг҃осло́ва",
+          "г҃ ї҆ѡнна бг҃осло́ва",
+          "3 Їѡ"
         ]
       },
-      "BEL": {
-        "defaultName": "Bel and the Dragon",
-        "defaultAbbreviation": "Bel",
+      "JDE": {
+        "defaultName": "Иуды",
+        "defaultAbbreviation": "Иуд",
         "inputFields": [
-          "Bel and the Dragon",
-          "Bel",
-          "BaD"
+          "Иуды",
+          "Иуд",
+          "Ид",
+          "Посла́нїе ї҆ѹ́дино",
+          "ї҆ѹ́дино"
         ]
       },
-      "SUS": {
-        "defaultName": "Susanna",
-        "defaultAbbreviation": "Sus",
+      "REV": {
+        "defaultName": "Откровение",
+        "defaultAbbreviation": "Откр",
         "inputFields": [
-          "Susanna",
-          "Sus",
-          "Ssnn"
+          "Откровение",
+          "Откр",
+          "А҆пока́лѷѱїсъ"
         ]
       },
-      "GES": {
-        "defaultName": "1 Esdras",
-        "defaultAbbreviation": "1 Esd",
+      "BAR": {
+        "defaultName": "Варух",
+        "defaultAbbreviation": "Вар",
         "inputFields": [
-          "1 Esdras",
-          "1 Esd",
-          "1 Esdrs"
+          "Варух",
+          "Вар",
+          "Врх",
+          "Варѹ́хъ",
+          "Врѹ́хъ"
         ]
       },
-      "LES": {
-        "defaultName": "2 Esdras",
-        "defaultAbbreviation": "2 Esd",
+      "GES": {
+        "defaultName": "3-я Ездры",
+        "defaultAbbreviation": "3 Езд",
         "inputFields": [
-          "2 Esdras",
-          "2 Esd",
-          "2 Esdrs"
+          "3-я Ездры",
+          "3 Езд",
+          "г҃ е҆́здры"
         ]
       },
-      "ESG": {
-        "defaultName": "Esther (Greek)",
-        "defaultAbbreviation": "EsGk",
+      "LES": {
+        "defaultName": "2-я Ездры",
+        "defaultAbbreviation": "2 Езд",
         "inputFields": [
-          "Esther (Greek)",
-          "EsGk",
-          "EstGk"
+          "2-я Ездры",
+          "2 Езд",
+          "в҃ е҆́здры"
         ]
       },
       "LJE": {
-        "defaultName": "Epistle of Jeremiah",
-        "defaultAbbreviation": "EpJer",
+        "defaultName": "Послание Иеремии",
+        "defaultAbbreviation": "Посл",
         "inputFields": [
-          "Epistle of Jeremiah",
-          "EpJer",
-          "Ep Jeremiah",
-          "Ep Jrm",
-          "Ltr Jeremiah",
-          "Ltr Jrm"
+          "Послание Иеремии",
+          "Посл",
+          "Посла́нїе їеремі́ино"
         ]
       },
       "JDT": {
-        "defaultName": "Judith",
-        "defaultAbbreviation": "Jdt",
+        "defaultName": "Иудифь",
+        "defaultAbbreviation": "Иудф",
         "inputFields": [
-          "Judith",
-          "Jdt",
-          "Jdth"
+          "Иудифь",
+          "Иудф",
+          "Идф",
+          "Iудф",
+          "I҆удi ѳ"
         ]
       },
       "MAN": {
-        "defaultName": "Prayer of Manasses",
-        "defaultAbbreviation": "Man",
+        "defaultName": "Молитва Манассии",
+        "defaultAbbreviation": "Мол",
         "inputFields": [
-          "Prayer of Manasses",
-          "Man",
-          "Manasses",
-          "Manasseh",
-          "Mnss",
-          "Mnsh",
-          "Pryr Man"
+          "Молитва Манассии",
+          "Мол",
+          "Мл"
         ]
       },
       "SIR": {
-        "defaultName": "Sirach",
-        "defaultAbbreviation": "Sir",
+        "defaultName": "Сирах",
+        "defaultAbbreviation": "Сир",
         "inputFields": [
-          "Sirach",
-          "Sir",
-          "Srch"
+          "Сирах",
+          "Сир",
+          "Срх",
+          "Сiрахъ",
+          "Срхъ"
         ]
       },
       "TOB": {
-        "defaultName": "Tobit",
-        "defaultAbbreviation": "Tob",
+        "defaultName": "Товит",
+        "defaultAbbreviation": "Тов",
         "inputFields": [
-          "Tobit",
-          "Tob",
-          "Tobias",
-          "Tbt",
-          "Tbs"
+          "Товит",
+          "Тов",
+          "Твт",
+          "Тѡві́т"
         ]
       },
       "WIS": {
-        "defaultName": "Wisdom of Solomon",
-        "defaultAbbreviation": "Wis",
+        "defaultName": "Премудрость Соломона",
+        "defaultAbbreviation": "Прем",
         "inputFields": [
-          "Wisdom of Solomon",
-          "Wis",
-          "Wsdm of Slmn"
+          "Премудрость Соломона",
+          "Прем",
+          "Прм",
+          "Премѹ́дрости соломѡ́ни"
         ]
       },
       "MA1": {
-        "defaultName": "1 Maccabees",
-        "defaultAbbreviation": "1 Mac",
+        "defaultName": "1-я Маккавейская",
+        "defaultAbbreviation": "1 Мак",
         "inputFields": [
-          "1 Maccabees",
-          "1 Mac",
-          "1 Mccbs",
-          "1 Mcbs"
+          "1-я Маккавейская",
+          "1 Мак",
+          "1 Мкк",
+          "а҃ маккавей́скаѧ",
+          "а҃ мккавей́скаѧ"
         ]
       },
       "MA2": {
-        "defaultName": "2 Maccabees",
-        "defaultAbbreviation": "2 Mac",
+        "defaultName": "2-я Маккавейская",
+        "defaultAbbreviation": "2 Мак",
         "inputFields": [
-          "2 Maccabees",
-          "2 Mac",
-          "2 Mccbs",
-          "2 Mcbs"
+          "2-я Маккавейская",
+          "2 Мак",
+          "2 Мкк",
+          "в҃ маккавей́скаѧ",
+          "в҃ мккавей́скаѧ"
         ]
       },
       "MA3": {
-        "defaultName": "3 Maccabees",
-        "defaultAbbreviation": "3 Mac",
+        "defaultName": "3-я Маккавейская",
+        "defaultAbbreviation": "3 Мак",
         "inputFields": [
-          "3 Maccabees",
-          "3 Mac",
-          "3 Mccbs",
-          "3 Mcbs"
+          "3-я Маккавейская",
+          "3 Мак",
+          "3 Мкк",
+          "г҃ маккавей́скаѧ",
+          "г҃ мккавей́скаѧ",
+          "3 Ма"
         ]
       },
       "MA4": {
-        "defaultName": "4 Maccabees",
-        "defaultAbbreviation": "4 Mac",
+        "defaultName": "4-я Маккавейская",
+        "defaultAbbreviation": "4 Мак",
         "inputFields": [
-          "4 Maccabees",
-          "4 Mac",
-          "4 Mccbs",
-          "4 Mcbs"
+          "4-я Маккавейская",
+          "4 Мак",
+          "4 Мкк"
         ]
       },
       "MA5": {
-        "defaultName": "5 Maccabees",
-        "defaultAbbreviation": "5 Mac",
+        "defaultName": "5-я Маккавейская",
+        "defaultAbbreviation": "5 Мак",
         "inputFields": [
-          "5 Maccabees",
-          "5 Mac",
-          "5 Mccbs",
-          "5 Mcbs"
+          "5-я Маккавейская",
+          "5 Мак",
+          "5 Мкк"
+        ]
+      },
+      "LAO": {
+        "defaultName": "К Лаодикийцам",
+        "defaultAbbreviation": "Лаод",
+        "inputFields": [
+          "К Лаодикийцам",
+          "Лаод",
+          "Лд"
+        ]
+      },
+      "PRF": {
+        "defaultName": "Preface",
+        "defaultAbbreviation": "Prf",
+        "inputFields": [
+          "Preface",
+          "Prf",
+          "Pre"
+        ]
+      },
+      "ACK": {
+        "defaultName": "Acknowledgements",
+        "defaultAbbreviation": "Ack",
+        "inputFields": [
+          "Acknowledgements",
+          "Ack"
         ]
       },
-      "PSB": {
-        "defaultName": "Psalms B",
-        "defaultAbbreviation": "LitPs",
+      "INT": {
+        "defaultName": "Introduction",
+        "defaultAbbreviation": "Intr",
         "inputFields": [
-          "Psalms B",
-          "LitPs",
-          "Metrical Psalms",
-          "Mtrca Pslms",
-          "Alternative Psalms",
-          "Alt Psalms",
-          "Alt Pslms",
-          "Lit Psalms",
-          "Lit Pslms"
+          "Introduction",
+          "Intr"
         ]
       },
-      "PS2": {
-        "defaultName": "Psalm 151",
-        "defaultAbbreviation": "Ps151",
+      "FRT": {
+        "defaultName": "Front Matter",
+        "defaultAbbreviation": "FrtMatter",
         "inputFields": [
-          "Psalm 151",
-          "Ps151",
-          "Pslm 151"
+          "Front Matter",
+          "FrtMatter",
+          "FM"
         ]
       },
-      "PS3": {
-        "defaultName": "Syriac Psalms",
-        "defaultAbbreviation": "SyrPs",
+      "TOC": {
+        "defaultName": "Table of Contents",
+        "defaultAbbreviation": "ToC",
         "inputFields": [
-          "Syriac Psalms",
-          "SyrPs",
-          "Syr Pslms"
+          "Table of Contents",
+          "ToC"
         ]
       },
-      "PSS": {
-        "defaultName": "Psalms of Solomon",
-        "defaultAbbreviation": "AddPs",
+      "BAK": {
+        "defaultName": "Back Matter",
+        "defaultAbbreviation": "Back",
         "inputFields": [
-          "Psalms of Solomon",
-          "AddPs",
-          "Ps Sol",
-          "Slmn Pslms"
+          "Back Matter",
+          "Back",
+          "Bck"
         ]
       },
-      "LAO": {
-        "defaultName": "Laodiceans",
-        "defaultAbbreviation": "Lao",
+      "MAP": {
+        "defaultName": "Maps",
+        "defaultAbbreviation": "Maps",
         "inputFields": [
-          "Laodiceans",
-          "Lao",
-          "Eps Lao",
-          "Ltr Lao"
+          "Maps",
+          "Mps"
         ]
       },
-      "ODE": {
-        "defaultName": "Odes",
-        "defaultAbbreviation": "Ode",
+      "XXA": {
+        "defaultName": "Extra Book A",
+        "defaultAbbreviation": "ExtraA",
         "inputFields": [
-          "Odes",
-          "Ode",
-          "Odae"
+          "Extra Book A",
+          "ExtraA"
         ]
       },
-      "PSO": {
-        "defaultName": "Prayer of Solomon",
-        "defaultAbbreviation": "PrSol",
+      "XXB": {
+        "defaultName": "Extra Book B",
+        "defaultAbbreviation": "ExtraB",
         "inputFields": [
-          "Prayer of Solomon",
-          "PrSol",
-          "Pryr Slm"
+          "Extra Book B",
+          "ExtraB"
         ]
       },
-      "PJE": {
-        "defaultName": "Prayer of Jeremiah",
-        "defaultAbbreviation": "PrJer",
+      "XXC": {
+        "defaultName": "Extra Book C",
+        "defaultAbbreviation": "ExtraC",
         "inputFields": [
-          "Prayer of Jeremiah",
-          "PrJer",
-          "Pryr Jeremiah"
+          "Extra Book C",
+          "ExtraC"
         ]
       },
-      "WSI": {
-        "defaultName": "Words of Sirach",
-        "defaultAbbreviation": "WrdsSir",
+      "XXD": {
+        "defaultName": "Extra Book D",
+        "defaultAbbreviation": "ExtraD",
         "inputFields": [
-          "Words of Sirach",
-          "WrdsSir",
-          "Wrds Sirach",
-          "Wrds Srch"
+          "Extra Book D",
+          "ExtraD"
         ]
       },
-      "COP": {
-        "defaultName": "Epistle of Corinthians to Paul",
-        "defaultAbbreviation": "EpCor",
+      "XXE": {
+        "defaultName": "Extra Book E",
+        "defaultAbbreviation": "ExtraE",
         "inputFields": [
-          "Epistle of Corinthians to Paul",
-          "EpCor",
-          "Ep Corinthians",
-          "Ep Crnthns",
-          "Ltr Corinthians",
-          "Ltr Crnthns"
+          "Extra Book E",
+          "ExtraE"
         ]
       },
-      "CO3": {
-        "defaultName": "3 Corinthians",
-        "defaultAbbreviation": "3 Cor",
+      "XXF": {
+        "defaultName": "Extra Book F",
+        "defaultAbbreviation": "ExtraF",
         "inputFields": [
-          "3 Corinthians",
-          "3 Cor",
-          "3 Crnthns"
+          "Extra Book F",
+          "ExtraF"
         ]
       },
-      "EUT": {
-        "defaultName": "Prayer of Euthalius",
-        "defaultAbbreviation": "Eut",
+      "XXG": {
+        "defaultName": "Extra Book G",
+        "defaultAbbreviation": "ExtraG",
         "inputFields": [
-          "Prayer of Euthalius",
-          "Eut",
-          "Pr Eut"
+          "Extra Book G",
+          "ExtraG"
+        ]
+      }
+    }
+  ],
+  "spa_traditional": [
+    {
+      "OT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU",
+          "JOS",
+          "JDG",
+          "RUT",
+          "SA1",
+          "SA2",
+          "KI1",
+          "KI2",
+          "CH1",
+          "CH2",
+          "EZR",
+          "NEH",
+          "EST",
+          "JOB",
+          "PSA",
+          "PRO",
+          "ECC",
+          "SNG",
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "XXX-SPA-Ancien Testament",
+        "defaultAbbreviation": "XXX-SPA-AT",
+        "inputFields": [
+          "XXX-SPA-Ancien Testament",
+          "XXX-SPA-AT",
+          "XXX-SPA-L'Ancien Testament",
+          "XXX-SPA-L'Ancien Tstmnt"
         ]
       },
-      "DOJ": {
-        "defaultName": "Dormition of John",
-        "defaultAbbreviation": "DoJ",
+      "PT": {
+        "includedBooks": [
+          "GEN",
+          "EXO",
+          "LEV",
+          "NUM",
+          "DEU"
+        ],
+        "defaultName": "XXX-SPA-Pentateuch",
+        "defaultAbbreviation": "XXX-SPA-Pent",
         "inputFields": [
-          "Dormition of John",
-          "DoJ",
-          "Drm Jhn",
-          "Drm Jn"
+          "XXX-SPA-Pentateuch",
+          "XXX-SPA-Pnttch",
+          "XXX-SPA-Torah",
+          "XXX-SPA-Trh",
+          "XXX-SPA-Moses' books",
+          "XXX-SPA-Books of Moses",
+          "XXX-SPA-Bks of Moses"
         ]
       },
-      "TTP": {
-        "defaultName": "Testaments of the Twelve Patriarchs",
-        "defaultAbbreviation": "Tst12",
+      "MJ": {
+        "includedBooks": [
+          "ISA",
+          "JER",
+          "LAM",
+          "EZE",
+          "DAN",
+          "BAR"
+        ],
+        "defaultName": "XXX-SPA-Major Prophets",
+        "defaultAbbreviation": "XXX-SPA-MajProps",
         "inputFields": [
-          "Testaments of the Twelve Patriarchs",
-          "Tst12",
-          "Tst 12P",
-          "Tst Twelve"
+          "XXX-SPA-Major Prophets",
+          "XXX-SPA-MajProps",
+          "XXX-SPA-Mjr Prphts"
         ]
       },
-      "JUB": {
-        "defaultName": "Jubilees",
-        "defaultAbbreviation": "Jub",
+      "MN": {
+        "includedBooks": [
+          "HOS",
+          "JOL",
+          "AMO",
+          "OBA",
+          "JNA",
+          "MIC",
+          "NAH",
+          "HAB",
+          "ZEP",
+          "HAG",
+          "ZEC",
+          "MAL"
+        ],
+        "defaultName": "XXX-SPA-Minor Prophets",
+        "defaultAbbreviation": "XXX-SPA-MinProp",
         "inputFields": [
-          "Jubilees",
-          "Jub",
-          "Jbls"
+          "XXX-SPA-Minor Prophets",
+          "XXX-SPA-MinProp",
+          "XXX-SPA-Mnr Prphts"
         ]
       },
-      "ENO": {
-        "defaultName": "Enoch",
-        "defaultAbbreviation": "Eno",
+      "NT": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN",
+          "ACT",
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB",
+          "JAM",
+          "PE1",
+          "PE2",
+          "JN1",
+          "JN2",
+          "JN3",
+          "JDE",
+          "REV"
+        ],
+        "defaultName": "XXX-SPA-Nouveau Testament",
+        "defaultAbbreviation": "XXX-SPA-NT",
         "inputFields": [
-          "Enoch",
-          "Eno",
-          "Ench",
-          "1 Enoch",
-          "1 Ench"
+          "XXX-SPA-Nouveau Testament",
+          "XXX-SPA-NT",
+          "XXX-SPA-Le Nouveau Testament",
+          "XXX-SPA-Nv Tstmnt"
         ]
       },
-      "EN2": {
-        "defaultName": "2 Enoch",
-        "defaultAbbreviation": "2 Eno",
+      "GO": {
+        "includedBooks": [
+          "MAT",
+          "MRK",
+          "LUK",
+          "JHN"
+        ],
+        "defaultName": "XXX-SPA-Gospels",
+        "defaultAbbreviation": "XXX-SPA-Gosp",
         "inputFields": [
-          "2 Enoch",
-          "2 Eno",
-          "2 Ench"
+          "XXX-SPA-Gospels",
+          "XXX-SPA-Gspls"
         ]
       },
-      "EZA": {
-        "defaultName": "Apocalypse of Ezra",
-        "defaultAbbreviation": "ApEz",
+      "PL": {
+        "includedBooks": [
+          "ROM",
+          "CO1",
+          "CO2",
+          "GAL",
+          "EPH",
+          "PHP",
+          "COL",
+          "TH1",
+          "TH2",
+          "TI1",
+          "TI2",
+          "TIT",
+          "PHM",
+          "HEB"
+        ],
+        "defaultName": "XXX-SPA-Pauline Epistles",
+        "defaultAbbreviation": "XXX-SPA-EpPaul",
         "inputFields": [
-          "Apocalypse of Ezra",
-          "ApEz",
-          "Ap Ezra"
+          "XXX-SPA-Pauline Epistles",
+          "XXX-SPA-EpPaul",
+          "XXX-SPA-Paul's epistles",
+          "XXX-SPA-Epistles of Paul",
+          "XXX-SPA-Ep of Paul",
+          "XXX-SPA-Letters of Paul",
+          "XXX-SPA-Ltrs of Paul",
+          "XXX-SPA-Paul's letters",
+          "XXX-SPA-Paul's ltrs"
         ]
-      },
-      "EZ5": {
-        "defaultName": "5 Ezra",
-        "defaultAbbreviation": "5 Ezr",
+      }
+    },
+    {
+      "1 ": [
+        "I ",
+        "XXX-SPA-Première ",
+        "XXX-SPA-Premiere ",
+        "XXX-SPA-Prmre ",
+        "1st ",
+        "One "
+      ],
+      "2 ": [
+        "II ",
+        "XXX-SPA-Seconde ",
+        "XXX-SPA-Scnde ",
+        "2nd ",
+        "Two "
+      ],
+      "3 ": [
+        "III ",
+        "XXX-SPA-Troisième ",
+        "XXX-SPA-Troisieme ",
+        "XXX-SPA-Trsme ",
+        "3rd ",
+        "Three "
+      ],
+      "4 ": [
+        "IV ",
+        "XXX-SPA-Quatrième ",
+        "XXX-SPA-Quatrieme ",
+        "XXX-SPA-Qutrme ",
+        "XXX-SPA-Qtrme ",
+        "4th ",
+        "Four "
+      ],
+      "5 ": [
+        "V ",
+        "XXX-SPA-Cinquième ",
+        "XXX-SPA-Cinquieme ",
+        "XXX-SPA-Cnqme ",
+        "5th ",
+        "Five "
+      ],
+      "6 ": [
+        "VI ",
+        "XXX-SPA-Sixth ",
+        "XXX-SPA-Sxth ",
+        "6th ",
+        "Six "
+      ],
+      "Saint ": [
+        "XXX-SPA-Snt ",
+        "XXX-SPA-St ",
+        "XXX-SPA-Snt. ",
+        "St. "
+      ]
+    },
+    {
+      "GEN": {
+        "defaultName": "Génesis",
+        "defaultAbbreviation": "Gen",
         "inputFields": [
-          "5 Ezra",
-          "5 Ezr",
-          "5 Esdras"
+          "Génesis",
+          "Gen",
+          "Genese",
+          "Gns",
+          "1 Moses",
+          "1 Mss"
         ]
       },
-      "EZ6": {
-        "defaultName": "6 Ezra",
-        "defaultAbbreviation": "6 Ezr",
+      "EXO": {
+        "defaultName": "Éxodo",
+        "defaultAbbreviation": "Exo",
         "inputFields": [
-          "6 Ezra",
-          "6 Ezr",
-          "6 Esdras"
+          "Éxodo",
+          "Exo",
+          "Exde",
+          "L'Exode",
+          "L'Exde",
+          "2 Moses",
+          "2 Mss"
         ]
       },
-      "REP": {
-        "defaultName": "Reproof",
-        "defaultAbbreviation": "Rep",
+      "LEV": {
+        "defaultName": "Levítico",
+        "defaultAbbreviation": "Lev",
         "inputFields": [
-          "Reproof",
-          "Rep",
-          "Rprf"
+          "Levítico",
+          "Lev",
+          "Levitique",
+          "Lvtque",
+          "3 Moses",
+          "3 Mss"
         ]
       },
-      "MQ1": {
-        "defaultName": "1 Meqabyan",
-        "defaultAbbreviation": "1 Meq",
+      "NUM": {
+        "defaultName": "Números",
+        "defaultAbbreviation": "Nom",
         "inputFields": [
-          "1 Meqabyan",
-          "1 Meq",
-          "1 Mqbyn",
-          "1 Makabian",
-          "1 Mkbn",
-          "Mekabis of Benjamin",
-          "Mekabis Benjamin",
-          "Mkbs Bnjmn"
+          "Números",
+          "Nom",
+          "Nmbrs",
+          "4 Moses",
+          "4 Mss"
         ]
       },
-      "MQ2": {
-        "defaultName": "2 Meqabyan",
-        "defaultAbbreviation": "2 Meq",
+      "DEU": {
+        "defaultName": "Deuteronomio",
+        "defaultAbbreviation": "Deu",
         "inputFields": [
-          "2 Meqabyan",
-          "2 Meq",
-          "2 Mqbyn",
-          "2 Makabian",
-          "2 Mkbn",
-          "Mekabis of Moab",
-          "Mekabis Moab",
-          "Mkbs Mb"
+          "Deuteronomio",
+          "Deu",
+          "Deuteronome",
+          "Dtrnme",
+          "5 Moses",
+          "5 Mss"
         ]
       },
-      "MQ3": {
-        "defaultName": "3 Meqabyan",
-        "defaultAbbreviation": "3 Meq",
-        "inputFields": [
-          "3 Meqabyan",
-          "3 Meq",
-          "3 Mqbyn",
-          "3 Makabian",
-          "3 Mkbn"
+      "JOS": {
+        "defaultName": "Josué",
+        "defaultAbbreviation": "Jos",
+        "inputFields": [
+          "Josué",
+          "Jos",
+          "Josue",
+          "Jsue"
         ]
       },
-      "BA2": {
-        "defaultName": "2 Baruch",
-        "defaultAbbreviation": "2 Bar",
+      "JDG": {
+        "defaultName": "Jueces",
+        "defaultAbbreviation": "Jug",
         "inputFields": [
-          "2 Baruch",
-          "2 Bar",
-          "2 Brch",
-          "Apocalypse of Baruch",
-          "Apoc of Baruch",
-          "Apoc Baruch"
+          "Jueces",
+          "Jug",
+          "Jges",
+          "Jgs"
         ]
       },
-      "BA3": {
-        "defaultName": "3 Baruch",
-        "defaultAbbreviation": "3 Bar",
+      "RUT": {
+        "defaultName": "Rut",
+        "defaultAbbreviation": "Rut",
         "inputFields": [
-          "3 Baruch",
-          "3 Bar",
-          "3 Brch"
+          "Rut",
+          "Rth"
         ]
       },
-      "BA4": {
-        "defaultName": "4 Baruch",
-        "defaultAbbreviation": "4 Bar",
+      "SA1": {
+        "defaultName": "1 Samuel",
+        "defaultAbbreviation": "1 Sam",
         "inputFields": [
-          "4 Baruch",
-          "4 Bar",
-          "4 Brch",
-          "Paralipomenon of Jeremiah",
-          "Prlp of Jrmh",
-          "Rest of Words of Baruch"
+          "1 Samuel",
+          "1 Sam",
+          "1 Sml"
         ]
       },
-      "LBA": {
-        "defaultName": "Epistle of Baruch",
-        "defaultAbbreviation": "EpBar",
+      "SA2": {
+        "defaultName": "2 Samuel",
+        "defaultAbbreviation": "2 Sam",
         "inputFields": [
-          "Epistle of Baruch",
-          "EpBar",
-          "Ep Baruch",
-          "Ep Brch",
-          "Epi Baruch",
-          "Epis Baruch",
-          "Letter of Baruch",
-          "Ltr of Baruch",
-          "Ltr Baruch"
+          "2 Samuel",
+          "2 Sam",
+          "2 Sml"
         ]
       },
-      "LJB": {
-        "defaultName": "Epistle of Jeremiah (with Baruch)",
-        "defaultAbbreviation": "EpJer",
+      "KI1": {
+        "defaultName": "1 Reyes",
+        "defaultAbbreviation": "1 Rs",
         "inputFields": [
-          "Epistle of Jeremiah (with Baruch)",
-          "EpJer",
-          "Ep Jer"
+          "1 Reyes",
+          "1 Rs"
         ]
       },
-      "CL1": {
-        "defaultName": "1 Clement",
-        "defaultAbbreviation": "1 Cle",
+      "KI2": {
+        "defaultName": "2 Reyes",
+        "defaultAbbreviation": "2 Rs",
         "inputFields": [
-          "1 Clement",
-          "1 Cle",
-          "1 Clmnt"
+          "2 Reyes",
+          "2 Rs"
         ]
       },
-      "CL2": {
-        "defaultName": "2 Clement",
-        "defaultAbbreviation": "2 Cle",
+      "CH1": {
+        "defaultName": "1 Crónicas",
+        "defaultAbbreviation": "1 Chr",
         "inputFields": [
-          "2 Clement",
-          "2 Cle",
-          "2 Clmnt"
+          "1 Crónicas",
+          "1 Chr",
+          "1 Chrnqs",
+          "1 Croniqs",
+          "1 Crnq"
         ]
       },
-      "SHE": {
-        "defaultName": "Shepherd of Hermas",
-        "defaultAbbreviation": "Her",
+      "CH2": {
+        "defaultName": "2 Crónicas",
+        "defaultAbbreviation": "2 Chr",
         "inputFields": [
-          "Shepherd of Hermas",
-          "Her",
-          "Hermas",
-          "Hrms",
-          "Shep Hermas"
+          "2 Crónicas",
+          "2 Chr",
+          "2 Chrnqs",
+          "2 Croniqs",
+          "2 Crnq"
         ]
       },
-      "DID": {
-        "defaultName": "Didache",
-        "defaultAbbreviation": "Did",
+      "EZR": {
+        "defaultName": "Esdras",
+        "defaultAbbreviation": "Esd",
         "inputFields": [
-          "Didache",
-          "Did",
-          "Ddch"
+          "Esdras",
+          "Esd",
+          "Esdrs"
         ]
       },
-      "MOS": {
-        "defaultName": "Moses",
-        "defaultAbbreviation": "Mos",
+      "NEH": {
+        "defaultName": "Nehemías",
+        "defaultAbbreviation": "Neh",
         "inputFields": [
-          "Moses",
-          "Mos",
-          "Mss"
+          "Nehemías",
+          "Neh",
+          "Nhmie",
+          "Nehémie",
+          "Néhemie",
+          "Nehemie"
         ]
       },
-      "SAM": {
-        "defaultName": "Samuel",
-        "defaultAbbreviation": "Sam",
+      "EST": {
+        "defaultName": "Ester",
+        "defaultAbbreviation": "Est",
         "inputFields": [
-          "Samuel",
-          "Sam",
-          "Sml"
+          "Ester",
+          "Est",
+          "Esther",
+          "Estr"
         ]
       },
-      "KGS": {
-        "defaultName": "Kings",
-        "defaultAbbreviation": "Kgs",
+      "JOB": {
+        "defaultName": "Job",
+        "defaultAbbreviation": "Job",
         "inputFields": [
-          "Kings",
-          "Kgs",
-          "Kngs"
+          "Job",
+          "Jb"
         ]
       },
-      "CHR": {
-        "defaultName": "Chronicles",
-        "defaultAbbreviation": "Chr",
+      "PSA": {
+        "defaultName": "Salmos",
+        "defaultAbbreviation": "Psa",
         "inputFields": [
-          "Chronicles",
-          "Chr",
-          "Chrncls"
+          "Salmos",
+          "Psa",
+          "Psms"
         ]
       },
-      "EZN": {
-        "defaultName": "Ezra-Nehemiah",
-        "defaultAbbreviation": "EzNeh",
+      "PRO": {
+        "defaultName": "Proverbios",
+        "defaultAbbreviation": "Pro",
         "inputFields": [
-          "Ezra-Nehemiah",
-          "EzNeh",
-          "Ezr Neh"
+          "Proverbios",
+          "Pro",
+          "Prvrbs",
+          "Prvbs"
         ]
       },
-      "P12": {
-        "defaultName": "Twelve Prophets",
-        "defaultAbbreviation": "TwProp",
+      "ECC": {
+        "defaultName": "Eclesiastés",
+        "defaultAbbreviation": "Ecc",
         "inputFields": [
-          "Twelve Prophets",
-          "TwProp",
-          "12 Prophets"
+          "Eclesiastés",
+          "Ecc",
+          "Ecclesiaste",
+          "L'Ecclésiaste",
+          "L'Ecclesiaste",
+          "Ecclst"
         ]
-      }
-    }
-  ],
-  "rus_traditional": [
-    {
-      "OT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU",
-          "JOS",
-          "JDG",
-          "RUT",
-          "SA1",
-          "SA2",
-          "KI1",
-          "KI2",
-          "CH1",
-          "CH2",
-          "EZR",
-          "NEH",
-          "EST",
-          "JOB",
-          "PSA",
-          "PRO",
-          "ECC",
-          "SNG",
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Old Testament",
-        "defaultAbbreviation": "OT",
+      },
+      "SNG": {
+        "defaultName": "Cantares",
+        "defaultAbbreviation": "Cnt",
+        "inputFields": [
+          "Cantares",
+          "Cnt",
+          "Cantique des Cantiques",
+          "Cnt de Slmn",
+          "CdS",
+          "CS"
+        ]
+      },
+      "ISA": {
+        "defaultName": "Isaías",
+        "defaultAbbreviation": "Ésa",
         "inputFields": [
-          "Old Testament",
-          "OT",
-          "Old Tstmnt"
+          "Isaías",
+          "Ésa",
+          "Esaïe",
+          "Esaie"
         ]
       },
-      "PT": {
-        "includedBooks": [
-          "GEN",
-          "EXO",
-          "LEV",
-          "NUM",
-          "DEU"
-        ],
-        "defaultName": "Pentateuch",
-        "defaultAbbreviation": "Pent",
+      "JER": {
+        "defaultName": "Jeremías",
+        "defaultAbbreviation": "Jér",
         "inputFields": [
-          "Pentateuch",
-          "Pnttch",
-          "Torah",
-          "Trh",
-          "Moses' books",
-          "Books of Moses",
-          "Bks of Moses"
+          "Jeremías",
+          "Jér",
+          "Jeremie",
+          "Jerémie",
+          "Jéremie",
+          "Jrm"
         ]
       },
-      "MJ": {
-        "includedBooks": [
-          "ISA",
-          "JER",
-          "LAM",
-          "EZE",
-          "DAN",
-          "BAR"
-        ],
-        "defaultName": "Major Prophets",
-        "defaultAbbreviation": "MajProps",
+      "LAM": {
+        "defaultName": "Lamentaciones",
+        "defaultAbbreviation": "Lam",
         "inputFields": [
-          "Major Prophets",
-          "MajProps",
-          "Mjr Prphts"
+          "Lamentaciones",
+          "Lam",
+          "Lmnts"
         ]
       },
-      "MN": {
-        "includedBooks": [
-          "HOS",
-          "JOL",
-          "AMO",
-          "OBA",
-          "JNA",
-          "MIC",
-          "NAH",
-          "HAB",
-          "ZEP",
-          "HAG",
-          "ZEC",
-          "MAL"
-        ],
-        "defaultName": "Minor Prophets",
-        "defaultAbbreviation": "MinProp",
+      "EZE": {
+        "defaultName": "Ezequiel",
+        "defaultAbbreviation": "Ézé",
         "inputFields": [
-          "Minor Prophets",
-          "MinProp",
-          "Mnr Prphts"
+          "Ezequiel",
+          "Ézé",
+          "Ezechiel",
+          "Ezéchiel",
+          "Ézechiel",
+          "Ézchl",
+          "Ezchl"
         ]
       },
-      "NT": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN",
-          "ACT",
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB",
-          "JAM",
-          "PE1",
-          "PE2",
-          "JN1",
-          "JN2",
-          "JN3",
-          "JDE",
-          "REV"
-        ],
-        "defaultName": "New Testament",
-        "defaultAbbreviation": "NT",
+      "DAN": {
+        "defaultName": "Daniel",
+        "defaultAbbreviation": "Dan",
         "inputFields": [
-          "New Testament",
-          "NT",
-          "Nw Tstmnt"
+          "Daniel",
+          "Dan",
+          "Dnl"
         ]
       },
-      "GO": {
-        "includedBooks": [
-          "MAT",
-          "MRK",
-          "LUK",
-          "JHN"
-        ],
-        "defaultName": "Gospels",
-        "defaultAbbreviation": "Gosp",
+      "HOS": {
+        "defaultName": "Oseas",
+        "defaultAbbreviation": "Osè",
         "inputFields": [
-          "Gospels",
-          "Gspls"
+          "Oseas",
+          "Osè",
+          "Osée",
+          "Osee"
         ]
       },
-      "PL": {
-        "includedBooks": [
-          "ROM",
-          "CO1",
-          "CO2",
-          "GAL",
-          "EPH",
-          "PHP",
-          "COL",
-          "TH1",
-          "TH2",
-          "TI1",
-          "TI2",
-          "TIT",
-          "PHM",
-          "HEB"
-        ],
-        "defaultName": "Pauline Epistles",
-        "defaultAbbreviation": "EpPaul",
+      "JOL": {
+        "defaultName": "Joel",
+        "defaultAbbreviation": "Joel",
         "inputFields": [
-          "Pauline Epistles",
-          "EpPaul",
-          "Paul's epistles",
-          "Epistles of Paul",
-          "Ep of Paul",
-          "Letters of Paul",
-          "Ltrs of Paul",
-          "Paul's letters",
-          "Paul's ltrs"
+          "Joel",
+          "Jol",
+          "Jl"
         ]
-      }
-    },
-    {
-      "1 ": [
-        "I ",
-        "First ",
-        "Frst ",
-        "1st ",
-        "One "
-      ],
-      "2 ": [
-        "II ",
-        "Second ",
-        "Scnd ",
-        "2nd ",
-        "Two "
-      ],
-      "3 ": [
-        "III ",
-        "Third ",
-        "Thrd ",
-        "3rd ",
-        "Three "
-      ],
-      "4 ": [
-        "IV ",
-        "Fourth ",
-        "Forth ",
-        "Frth ",
-        "4th ",
-        "Four "
-      ],
-      "5 ": [
-        "V ",
-        "Fifth ",
-        "Ffth ",
-        "5th ",
-        "Five "
-      ],
-      "6 ": [
-        "VI ",
-        "Sixth ",
-        "Sxth ",
-        "6th ",
-        "Six "
-      ],
-      "Saint ": [
-        "Snt ",
-        "St ",
-        "Snt. ",
-        "St. "
-      ]
-    },
-    {
-      "GEN": {
-        "defaultName": "\u0411\u044b\u0442\u0438\u0435",
-        "defaultAbbreviation": "\u0411\u044b\u0442",
+      },
+      "AMO": {
+        "defaultName": "Amós",
+        "defaultAbbreviation": "Amos",
         "inputFields": [
-          "\u0411\u044b\u0442\u0438\u0435",
-          "\u0411\u044b\u0442",
-          "\u0411\u044b\u0442\u0457\u0435\u0300"
+          "Amós",
+          "Amos",
+          "Ams"
         ]
       },
-      "EXO": {
-        "defaultName": "\u0418\u0441\u0445\u043e\u0434",
-        "defaultAbbreviation": "\u0418\u0441\u0445",
+      "OBA": {
+        "defaultName": "Abdías",
+        "defaultAbbreviation": "Abd",
         "inputFields": [
-          "\u0418\u0441\u0445\u043e\u0434",
-          "\u0418\u0441\u0445",
-          "\u0418\u0486\u0441\u0445\u043e\u0301\u0434\u044a"
+          "Abdías",
+          "Abd",
+          "Abds"
         ]
       },
-      "LEV": {
-        "defaultName": "\u041b\u0435\u0432\u0438\u0442",
-        "defaultAbbreviation": "\u041b\u0435\u0432",
+      "JNA": {
+        "defaultName": "Jonás",
+        "defaultAbbreviation": "Jon",
         "inputFields": [
-          "\u041b\u0435\u0432\u0438\u0442",
-          "\u041b\u0435\u0432",
-          "\u041b\u0435\u0475\u0456\u0301\u0442\u044a"
+          "Jonás",
+          "Jon",
+          "Jns"
         ]
       },
-      "NUM": {
-        "defaultName": "\u0427\u0438\u0441\u043b\u0430",
-        "defaultAbbreviation": "\u0427\u0438\u0441",
+      "MIC": {
+        "defaultName": "Miqueas",
+        "defaultAbbreviation": "Mic",
         "inputFields": [
-          "\u0427\u0438\u0441\u043b\u0430",
-          "\u0427\u0438\u0441",
-          "\u0427\u0438\u0301\u0441\u043b\u0430"
+          "Miqueas",
+          "Mic",
+          "Michee",
+          "Mchée",
+          "Mchee"
         ]
       },
-      "DEU": {
-        "defaultName": "\u0412\u0442\u043e\u0440\u043e\u0437\u0430\u043a\u043e\u043d\u0438\u0435",
-        "defaultAbbreviation": "\u0412\u0442\u043e\u0440",
+      "NAH": {
+        "defaultName": "Nahum",
+        "defaultAbbreviation": "Nah",
         "inputFields": [
-          "\u0412\u0442\u043e\u0440\u043e\u0437\u0430\u043a\u043e\u043d\u0438\u0435",
-          "\u0412\u0442\u043e\u0440",
-          "\u0412\u0442\u043e\u0440\u043e\u0437\u0430\u043a\u043e\u0301\u043d\u0457\u0435"
+          "Nahum",
+          "Nah",
+          "Nahm",
+          "Nhum"
         ]
       },
-      "JOS": {
-        "defaultName": "\u0418\u0438\u0441\u0443\u0441 \u041d\u0430\u0432\u0438\u043d",
-        "defaultAbbreviation": "\u041d\u0430\u0432",
+      "HAB": {
+        "defaultName": "Habacuc",
+        "defaultAbbreviation": "Hab",
         "inputFields": [
-          "\u0418\u0438\u0441\u0443\u0441 \u041d\u0430\u0432\u0438\u043d",
-          "\u041d\u0430\u0432",
-          "\u041d\u0430\u0432\u0438\u043d",
-          "\u0407\u0486\u0438\u0441\u0479\u0301\u0441\u0430 \u041d\u0430\u0475\u0438\u0301\u043d\u0430"
+          "Habacuc",
+          "Hab",
+          "Habakuk",
+          "Hbcc"
         ]
       },
-      "JDG": {
-        "defaultName": "\u0421\u0443\u0434\u044c\u0438",
-        "defaultAbbreviation": "\u0421\u0443\u0434",
+      "ZEP": {
+        "defaultName": "Sofonías",
+        "defaultAbbreviation": "Sop",
         "inputFields": [
-          "\u0421\u0443\u0434\u044c\u0438",
-          "\u0421\u0443\u0434",
-          "\u0421\u0479\u0434\u0456\u0301\u0439 \u0457\u0486\u0441\u0440\u0430\u0301\u0438\u043b\u0435\u0432\u044b\u0445\u044a"
+          "Sofonías",
+          "Sop",
+          "Sphnie"
         ]
       },
-      "RUT": {
-        "defaultName": "\u0420\u0443\u0444\u044c",
-        "defaultAbbreviation": "\u0420\u0443\u0444\u044c",
+      "HAG": {
+        "defaultName": "Hageo",
+        "defaultAbbreviation": "Agg",
         "inputFields": [
-          "\u0420\u0443\u0444\u044c",
-          "\u0420\u0479\u0301\u0473\u044c"
+          "Hageo",
+          "Agg",
+          "Aggee",
+          "Agée",
+          "Agee"
         ]
       },
-      "SA1": {
-        "defaultName": "1-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-        "defaultAbbreviation": "1 \u0426\u0430\u0440",
+      "ZEC": {
+        "defaultName": "Zacarías",
+        "defaultAbbreviation": "Zac",
         "inputFields": [
-          "1-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-          "1 \u0426\u0430\u0440",
-          "\u0430\u0483 \u0446\u0430\u0301\u0440\u0441\u0442\u0432\u044a"
+          "Zacarías",
+          "Zac",
+          "Zchrie"
         ]
       },
-      "SA2": {
-        "defaultName": "2-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-        "defaultAbbreviation": "2 \u0426\u0430\u0440",
+      "MAL": {
+        "defaultName": "Malaquías",
+        "defaultAbbreviation": "Mal",
         "inputFields": [
-          "2-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-          "2 \u0426\u0430\u0440",
-          "\u0432\u0483 \u0446\u0430\u0301\u0440\u0441\u0442\u0432\u044a"
+          "Malaquías",
+          "Mal",
+          "Mlchie"
         ]
       },
-      "KI1": {
-        "defaultName": "3-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-        "defaultAbbreviation": "3 \u0426\u0430\u0440",
+      "MAT": {
+        "defaultName": "Mateo",
+        "defaultAbbreviation": "Mat",
         "inputFields": [
-          "3-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-          "3 \u0426\u0430\u0440",
-          "\u0433\u0483 \u0446\u0430\u0301\u0440\u0441\u0442\u0432\u044a"
+          "Mateo",
+          "Mat",
+          "Mtth",
+          "Mth",
+          "Saint Matthieu",
+          "Saint Mtth",
+          "Saint Mth"
         ]
       },
-      "KI2": {
-        "defaultName": "4-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-        "defaultAbbreviation": "4 \u0426\u0430\u0440",
+      "MRK": {
+        "defaultName": "Marcos",
+        "defaultAbbreviation": "Mrc",
         "inputFields": [
-          "4-\u044f \u0426\u0430\u0440\u0441\u0442\u0432",
-          "4 \u0426\u0430\u0440",
-          "\u0434\u0483 \u0446\u0430\u0301\u0440\u0441\u0442\u0432\u044a"
+          "Marcos",
+          "Mrc",
+          "Mrk",
+          "Mc",
+          "Saint Marc",
+          "Saint Mrc",
+          "Saint Mc"
         ]
       },
-      "CH1": {
-        "defaultName": "1-\u044f \u041f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u043d\u043e\u043d",
-        "defaultAbbreviation": "1 \u041f\u0430\u0440",
+      "LUK": {
+        "defaultName": "Lucas",
+        "defaultAbbreviation": "Luc",
         "inputFields": [
-          "1-\u044f \u041f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u043d\u043e\u043d",
-          "1 \u041f\u0430\u0440",
-          "\u0430\u0483 \u043f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u0301\u043d\u0461\u043d\u044a"
+          "Lucas",
+          "Luc",
+          "Lc",
+          "Saint Luc",
+          "Saint Lc"
         ]
       },
-      "CH2": {
-        "defaultName": "2-\u044f \u041f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u043d\u043e\u043d",
-        "defaultAbbreviation": "2 \u041f\u0430\u0440",
+      "JHN": {
+        "defaultName": "Juan",
+        "defaultAbbreviation": "Jn",
         "inputFields": [
-          "2-\u044f \u041f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u043d\u043e\u043d",
-          "2 \u041f\u0430\u0440",
-          "\u0432\u0483 \u043f\u0430\u0440\u0430\u043b\u0438\u043f\u043e\u043c\u0435\u0301\u043d\u0461\u043d\u044a"
+          "Juan",
+          "Jn",
+          "Saint Jean",
+          "Saint Jn"
         ]
       },
-      "EZR": {
-        "defaultName": "\u0415\u0437\u0434\u0440\u0430",
-        "defaultAbbreviation": "\u0415\u0437\u0434\u0440",
+      "ACT": {
+        "defaultName": "Hechos",
+        "defaultAbbreviation": "Act",
         "inputFields": [
-          "\u0415\u0437\u0434\u0440\u0430",
-          "\u0415\u0437\u0434\u0440",
-          "\u0430\u0483 \u0435\u0486\u0301\u0437\u0434\u0440\u044b",
-          "1 \u0415\u0437\u0434\u0440\u0430"
+          "Hechos",
+          "Act",
+          "Acts"
         ]
       },
-      "NEH": {
-        "defaultName": "\u041d\u0435\u0435\u043c\u0438\u044f",
-        "defaultAbbreviation": "\u041d\u0435\u0435\u043c",
+      "ROM": {
+        "defaultName": "Romanos",
+        "defaultAbbreviation": "Rom",
         "inputFields": [
-          "\u041d\u0435\u0435\u043c\u0438\u044f",
-          "\u041d\u0435\u0435\u043c",
-          "\u041d\u043c",
-          "\u041d\u0435\u0435\u043c\u0456\u0301\u0438"
+          "Romanos",
+          "Rom",
+          "Rmns"
         ]
       },
-      "EST": {
-        "defaultName": "\u0415\u0441\u0444\u0438\u0440\u044c",
-        "defaultAbbreviation": "\u0415\u0441\u0444",
+      "CO1": {
+        "defaultName": "1 Corintios",
+        "defaultAbbreviation": "1 Cor",
         "inputFields": [
-          "\u0415\u0441\u0444\u0438\u0440\u044c",
-          "\u0415\u0441\u0444",
-          "\u0415\u0486\u0441\u0473\u0438\u0301\u0440\u044c"
+          "1 Corintios",
+          "1 Cor",
+          "1 Crnthns"
         ]
       },
-      "JOB": {
-        "defaultName": "\u0418\u043e\u0432",
-        "defaultAbbreviation": "\u0418\u043e\u0432",
+      "CO2": {
+        "defaultName": "2 Corintios",
+        "defaultAbbreviation": "2 Cor",
         "inputFields": [
-          "\u0418\u043e\u0432",
-          "\u0418\u0432",
-          "\u0406\u0461\u0432\u044a"
+          "2 Corintios",
+          "2 Cor",
+          "2 Crnthns"
         ]
       },
-      "PSA": {
-        "defaultName": "\u041f\u0441\u0430\u043b\u0442\u0438\u0440\u044c",
-        "defaultAbbreviation": "\u041f\u0441",
+      "GAL": {
+        "defaultName": "Gálatas",
+        "defaultAbbreviation": "Gal",
         "inputFields": [
-          "\u041f\u0441\u0430\u043b\u0442\u0438\u0440\u044c",
-          "\u041f\u0441",
-          "\u0470\u0430\u043b\u0442\u0438\u0301\u0440\u044c"
+          "Gálatas",
+          "Gal",
+          "Glts"
         ]
       },
-      "PRO": {
-        "defaultName": "\u041f\u0440\u0438\u0442\u0447\u0438",
-        "defaultAbbreviation": "\u041f\u0440\u0438\u0442",
+      "EPH": {
+        "defaultName": "Efesios",
+        "defaultAbbreviation": "Éph",
         "inputFields": [
-          "\u041f\u0440\u0438\u0442\u0447\u0438",
-          "\u041f\u0440\u0438\u0442",
-          "\u041f\u0440\u0438\u0301\u0442\u0447\u0435\u0439 \u0441\u043e\u043b\u043e\u043c\u0461\u0301\u043d\u0438\u0445\u044a"
+          "Efesios",
+          "Éph",
+          "Ephésiens",
+          "Éphesiens",
+          "Ephesiens",
+          "Éphsns",
+          "Ephsns"
         ]
       },
-      "ECC": {
-        "defaultName": "\u0415\u043a\u043a\u043b\u0435\u0441\u0438\u0430\u0441\u0442",
-        "defaultAbbreviation": "\u0415\u043a\u043a\u043b",
+      "PHP": {
+        "defaultName": "Filipenses",
+        "defaultAbbreviation": "Php",
         "inputFields": [
-          "\u0415\u043a\u043a\u043b\u0435\u0441\u0438\u0430\u0441\u0442",
-          "\u0415\u043a\u043a\u043b",
-          "\u0415\u0486\u043a\u043a\u043b\u0435\u0441\u0457\u0430\u0301\u0441\u0442"
+          "Filipenses",
+          "Php",
+          "Phlppns",
+          "Phlpns",
+          "Phillipiens",
+          "Philipiens",
+          "Phillippiens"
         ]
       },
-      "SNG": {
-        "defaultName": "\u041f\u0435\u0441\u043d\u044f \u041f\u0435\u0441\u043d\u0435\u0439",
-        "defaultAbbreviation": "\u041f\u0435\u0441\u043d",
+      "COL": {
+        "defaultName": "Colosenses",
+        "defaultAbbreviation": "Col",
         "inputFields": [
-          "\u041f\u0435\u0441\u043d\u044f \u041f\u0435\u0441\u043d\u0435\u0439",
-          "\u041f\u0435\u0441\u043d",
-          "\u041f\u0441\u043d",
-          "\u041f\u0440\u0438\u0301\u0442\u0447\u0435\u0439 \u0441\u043e\u043b\u043e\u043c\u0461\u0301\u043d\u0438\u0445\u044a",
-          "\u041f\u0301\u0441\u043d"
+          "Colosenses",
+          "Col",
+          "Clssns",
+          "Clsns",
+          "Cllssns",
+          "Collosiens",
+          "Collossiens",
+          "Colosiens"
         ]
       },
-      "ISA": {
-        "defaultName": "\u0418\u0441\u0430\u0438\u044f",
-        "defaultAbbreviation": "\u0418\u0441",
+      "TH1": {
+        "defaultName": "1 Tesalonicenses",
+        "defaultAbbreviation": "1 Thess",
         "inputFields": [
-          "\u0418\u0441\u0430\u0438\u044f",
-          "\u0418\u0441",
-          "\u041a\u043d\u0438\u0301\u0433\u0430 \u043f\u0440\u043e\u0440\u043e\u0301\u043a\u0430 \u0418\u0486\u0441\u0430\u0301\u0457\u0438"
+          "1 Tesalonicenses",
+          "1 Thess",
+          "1 Thsslncns",
+          "1 Thslns",
+          "1 Thesalloniciens",
+          "1 Thessalloniciens",
+          "1 Thesaloniciens"
         ]
       },
-      "JER": {
-        "defaultName": "\u0418\u0435\u0440\u0435\u043c\u0438\u044f",
-        "defaultAbbreviation": "\u0418\u0435\u0440",
+      "TH2": {
+        "defaultName": "2 Tesalonicenses",
+        "defaultAbbreviation": "2 Thess",
         "inputFields": [
-          "\u0418\u0435\u0440\u0435\u043c\u0438\u044f",
-          "\u0418\u0435\u0440",
-          "\u0418\u0440",
-          "I\u0486\u0435\u0440\u0435\u043c\u0456\u0301\u0438"
+          "2 Tesalonicenses",
+          "2 Thess",
+          "2 Thsslncns",
+          "2 Thslns",
+          "2 Thesalloniciens",
+          "2 Thessalloniciens",
+          "2 Thesaloniciens"
         ]
       },
-      "LAM": {
-        "defaultName": "\u041f\u043b\u0430\u0447 \u0418\u0435\u0440\u0435\u043c\u0438\u0438",
-        "defaultAbbreviation": "\u041f\u043b\u0430\u0447",
+      "TI1": {
+        "defaultName": "1 Timoteo",
+        "defaultAbbreviation": "1 Tim",
         "inputFields": [
-          "\u041f\u043b\u0430\u0447 \u0418\u0435\u0440\u0435\u043c\u0438\u0438",
-          "\u041f\u043b\u0430\u0447",
-          "\u041f\u043b\u0447",
-          "\u041f\u043b\u0430\u0301\u0447\u044c \u0457\u0486\u0435\u0440\u0435\u043c\u0456\u0301\u0435\u0432\u044a'"
+          "1 Timoteo",
+          "1 Tim",
+          "1 Tmth",
+          "1 Timothee"
         ]
       },
-      "EZE": {
-        "defaultName": "\u0418\u0435\u0437\u0435\u043a\u0438\u0438\u043b\u044c",
-        "defaultAbbreviation": "\u0418\u0435\u0437",
+      "TI2": {
+        "defaultName": "2 Timoteo",
+        "defaultAbbreviation": "2 Tim",
         "inputFields": [
-          "\u0418\u0435\u0437\u0435\u043a\u0438\u0438\u043b\u044c",
-          "\u0418\u0435\u0437",
-          "\u0418\u0437",
-          "I\u0486\u0435\u0437\u0435\u043a\u0456\u0301\u0438\u043b\u0467"
+          "2 Timoteo",
+          "2 Tim",
+          "2 Tmth",
+          "2 Timothee"
         ]
       },
-      "DAN": {
-        "defaultName": "\u0414\u0430\u043d\u0438\u0438\u043b",
-        "defaultAbbreviation": "\u0414\u0430\u043d",
+      "TIT": {
+        "defaultName": "Tito",
+        "defaultAbbreviation": "Tit",
         "inputFields": [
-          "\u0414\u0430\u043d\u0438\u0438\u043b",
-          "\u0414\u0430\u043d",
-          "\u0414\u043d",
-          "\u0414\u0430\u043d\u0457\u0438\u0301\u043b\u0430"
+          "Tito",
+          "Tit",
+          "Tte"
         ]
       },
-      "HOS": {
-        "defaultName": "\u041e\u0441\u0438\u044f",
-        "defaultAbbreviation": "\u041e\u0441",
+      "PHM": {
+        "defaultName": "Filemón",
+        "defaultAbbreviation": "Phm",
         "inputFields": [
-          "\u041e\u0441\u0438\u044f",
-          "\u041e\u0441",
-          "\u0460\u0486\u0441\u0456\u0301\u0430"
+          "Filemón",
+          "Phm",
+          "Phlmn",
+          "Philemon"
         ]
       },
-      "JOL": {
-        "defaultName": "\u0418\u043e\u0438\u043b\u044c",
-        "defaultAbbreviation": "\u0418\u043e\u0438\u043b",
+      "HEB": {
+        "defaultName": "Hebreos",
+        "defaultAbbreviation": "Heb",
         "inputFields": [
-          "\u0418\u043e\u0438\u043b\u044c",
-          "\u0418\u043e\u0438\u043b",
-          "\u0418\u0438\u043b",
-          "\u0407\u0486\u0461\u0438\u0301\u043b\u044c"
+          "Hebreos",
+          "Heb",
+          "Hbrx",
+          "Hebreux"
         ]
       },
-      "AMO": {
-        "defaultName": "\u0410\u043c\u043e\u0441",
-        "defaultAbbreviation": "\u0410\u043c",
+      "JAM": {
+        "defaultName": "Santiago",
+        "defaultAbbreviation": "Jac",
         "inputFields": [
-          "\u0410\u043c\u043e\u0441",
-          "\u0410\u043c",
-          "\u0410\u0486\u043c\u0461\u0301\u0441"
+          "Santiago",
+          "Jac",
+          "Jcqs",
+          "Saint Jacques",
+          "Saint Jcqs"
         ]
       },
-      "OBA": {
-        "defaultName": "\u0410\u0432\u0434\u0438\u0439",
-        "defaultAbbreviation": "\u0410\u0432\u0434",
+      "PE1": {
+        "defaultName": "1 Pedro",
+        "defaultAbbreviation": "1 Pie",
         "inputFields": [
-          "\u0410\u0432\u0434\u0438\u0439",
-          "\u0410\u0432\u0434",
-          "\u0410\u0486\u0432\u0434\u0456\u0301\u0439"
+          "1 Pedro",
+          "1 Pie",
+          "1 Prre",
+          "1 Saint Pierre",
+          "1 Saint Prre"
         ]
       },
-      "JNA": {
-        "defaultName": "\u0418\u043e\u043d\u0430",
-        "defaultAbbreviation": "\u0418\u043e\u043d",
+      "PE2": {
+        "defaultName": "1 Pedro",
+        "defaultAbbreviation": "2 Pie",
         "inputFields": [
-          "\u0418\u043e\u043d\u0430",
-          "\u0418\u043e\u043d",
-          "I\u0486\u0461\u0301\u043d\u0430"
+          "1 Pedro",
+          "2 Pie",
+          "2 Prre",
+          "2 Saint Pierre",
+          "2 Saint Prre"
         ]
       },
-      "MIC": {
-        "defaultName": "\u041c\u0438\u0445\u0435\u0439",
-        "defaultAbbreviation": "\u041c\u0438\u0445",
+      "JN1": {
+        "defaultName": "1 Juan",
+        "defaultAbbreviation": "1 Jn",
         "inputFields": [
-          "\u041c\u0438\u0445\u0435\u0439",
-          "\u041c\u0438\u0445",
-          "\u041c\u0445",
-          "\u041c\u0457\u0445\u0435\u0301\u0439"
+          "1 Juan",
+          "1 Jn",
+          "1 Jun"
         ]
       },
-      "NAH": {
-        "defaultName": "\u041d\u0430\u0443\u043c",
-        "defaultAbbreviation": "\u041d\u0430\u0443\u043c",
+      "JN2": {
+        "defaultName": "2 Juan",
+        "defaultAbbreviation": "2 Jn",
         "inputFields": [
-          "\u041d\u0430\u0443\u043c",
-          "\u041d\u0443\u043c",
-          "\u041d\u0430\u0479\u0301\u043c\u044a"
+          "2 Juan",
+          "2 Jn",
+          "2 Jun"
         ]
       },
-      "HAB": {
-        "defaultName": "\u0410\u0432\u0432\u0430\u043a\u0443\u043c",
-        "defaultAbbreviation": "\u0410\u0432\u0432",
+      "JN3": {
+        "defaultName": "3 Juan",
+        "defaultAbbreviation": "3 Jn",
         "inputFields": [
-          "\u0410\u0432\u0432\u0430\u043a\u0443\u043c",
-          "\u0410\u0432\u0432",
-          "\u0410\u0486\u0432\u0432\u0430\u043a\u0479\u0301\u043c\u044a"
+          "3 Juan",
+          "3 Jn",
+          "3 Jun"
         ]
       },
-      "ZEP": {
-        "defaultName": "\u0421\u043e\u0444\u043e\u043d\u0438\u044f",
-        "defaultAbbreviation": "\u0421\u043e\u0444",
+      "JDE": {
+        "defaultName": "Judas",
+        "defaultAbbreviation": "Jud",
         "inputFields": [
-          "\u0421\u043e\u0444\u043e\u043d\u0438\u044f",
-          "\u0421\u043e\u0444",
-          "\u0421\u0444",
-          "\u0421\u043e\u0444\u043e\u0301\u043d\u0457\u0430"
+          "Judas",
+          "Jud",
+          "Jde"
         ]
       },
-      "HAG": {
-        "defaultName": "\u0410\u0433\u0433\u0435\u0439",
-        "defaultAbbreviation": "\u0410\u0433\u0433",
+      "REV": {
+        "defaultName": "Apocalipsis",
+        "defaultAbbreviation": "Apo",
         "inputFields": [
-          "\u0410\u0433\u0433\u0435\u0439",
-          "\u0410\u0433\u0433",
-          "\u0410\u0486\u0433\u0433\u0435\u0301\u0439"
+          "Apocalipsis",
+          "Apo",
+          "Apclypse",
+          "Apclpse"
         ]
       },
-      "ZEC": {
-        "defaultName": "\u0417\u0430\u0445\u0430\u0440\u0438\u044f",
-        "defaultAbbreviation": "\u0417\u0430\u0445",
+      "BAR": {
+        "defaultName": "Baruch",
+        "defaultAbbreviation": "Bar",
         "inputFields": [
-          "\u0417\u0430\u0445\u0430\u0440\u0438\u044f",
-          "\u0417\u0430\u0445",
-          "\u0417\u0445",
-          "\u0417\u0430\u0445\u0430\u0301\u0440\u0457\u0430"
+          "Baruch",
+          "Bar",
+          "Brch"
         ]
       },
-      "MAL": {
-        "defaultName": "\u041c\u0430\u043b\u0430\u0445\u0438\u044f",
-        "defaultAbbreviation": "\u041c\u0430\u043b",
+      "DNG": {
+        "defaultName": "Daniel (Greek)",
+        "defaultAbbreviation": "Dn(Gk)",
         "inputFields": [
-          "\u041c\u0430\u043b\u0430\u0445\u0438\u044f",
-          "\u041c\u0430\u043b",
-          "\u041c\u043b",
-          "\u041c\u0430\u043b\u0430\u0445\u0456\u0301\u0430"
+          "Daniel (Greek)",
+          "Dn(Gk)",
+          "DnlGk"
         ]
       },
-      "MAT": {
-        "defaultName": "\u041e\u0442 \u041c\u0430\u0442\u0444\u0435\u044f",
-        "defaultAbbreviation": "\u041c\u0430\u0442",
+      "PAZ": {
+        "defaultName": "Prayer of Azariah",
+        "defaultAbbreviation": "PrAz",
         "inputFields": [
-          "\u041e\u0442 \u041c\u0430\u0442\u0444\u0435\u044f",
-          "\u041c\u0430\u0442",
-          "\u041c\u0442",
-          "\u047e \u043c\u0430\u0442\u0473\u0435\u0301\u0430",
-          "\u043c\u0430\u0442\u0473\u0435\u0301\u0430"
+          "Prayer of Azariah",
+          "PrAz",
+          "Pryr Azrh"
         ]
       },
-      "MRK": {
-        "defaultName": "\u041e\u0442 \u041c\u0430\u0440\u043a\u0430",
-        "defaultAbbreviation": "\u041c\u0430\u0440",
+      "BEL": {
+        "defaultName": "Bel and the Dragon",
+        "defaultAbbreviation": "Bel",
         "inputFields": [
-          "\u041e\u0442 \u041c\u0430\u0440\u043a\u0430",
-          "\u041c\u0430\u0440",
-          "\u041c\u0440",
-          "\u047e \u043c\u0430\u0301\u0440\u043a\u0430",
-          "\u043c\u0430\u0301\u0440\u043a\u0430"
+          "Bel and the Dragon",
+          "Bel",
+          "BaD"
         ]
       },
-      "LUK": {
-        "defaultName": "\u041e\u0442 \u041b\u0443\u043a\u0438",
-        "defaultAbbreviation": "\u041b\u0443\u043a",
+      "SUS": {
+        "defaultName": "Susanna",
+        "defaultAbbreviation": "Sus",
         "inputFields": [
-          "\u041e\u0442 \u041b\u0443\u043a\u0438",
-          "\u041b\u0443\u043a",
-          "\u041b\u043a",
-          "\u047e \u043b\u0479\u043a\u0438\u0300",
-          "\u043b\u0479\u043a\u0438\u0300"
+          "Susanna",
+          "Sus",
+          "Ssnn"
         ]
       },
-      "JHN": {
-        "defaultName": "\u041e\u0442 \u0418\u043e\u0430\u043d\u043d\u0430",
-        "defaultAbbreviation": "\u0418\u043d",
+      "GES": {
+        "defaultName": "1 Esdras",
+        "defaultAbbreviation": "1 Esd",
         "inputFields": [
-          "\u041e\u0442 \u0418\u043e\u0430\u043d\u043d\u0430",
-          "\u0418\u043d",
-          "\u047e \u0457\u0486\u0461\u0430\u0301\u043d\u043d\u0430",
-          "\u0457\u0486\u0461\u0430\u0301\u043d\u043d\u0430"
+          "1 Esdras",
+          "1 Esd",
+          "1 Esdrs"
         ]
       },
-      "ACT": {
-        "defaultName": "\u0414\u0435\u044f\u043d\u0438\u044f",
-        "defaultAbbreviation": "\u0414\u0435\u044f\u043d",
+      "LES": {
+        "defaultName": "2 Esdras",
+        "defaultAbbreviation": "2 Esd",
         "inputFields": [
-          "\u0414\u0435\u044f\u043d\u0438\u044f",
-          "\u0414\u0435\u044f\u043d",
-          "\u0414\u044f\u043d",
-          "\u0414\u0463\u0467\u0484\u043d\u0457\u0467"
+          "2 Esdras",
+          "2 Esd",
+          "2 Esdrs"
         ]
       },
-      "ROM": {
-        "defaultName": "\u041a \u0420\u0438\u043c\u043b\u044f\u043d\u0430\u043c",
-        "defaultAbbreviation": "\u0420\u0438\u043c",
+      "ESG": {
+        "defaultName": "Esther (Greek)",
+        "defaultAbbreviation": "EsGk",
         "inputFields": [
-          "\u041a \u0420\u0438\u043c\u043b\u044f\u043d\u0430\u043c",
-          "\u0420\u0438\u043c",
-          "\u0420\u043c",
-          "\u041a\u044a \u0440\u0438\u0301\u043c\u043b\u0467\u043d\u0461\u043c\u044a",
-          "\u0440\u0438\u0301\u043c\u043b\u0467\u043d\u0461\u043c\u044a"
+          "Esther (Greek)",
+          "EsGk",
+          "EstGk"
         ]
       },
-      "CO1": {
-        "defaultName": "1-\u0435 \u041a\u043e\u0440\u0438\u043d\u0444\u044f\u043d\u0430\u043c",
-        "defaultAbbreviation": "1 \u041a\u043e\u0440",
+      "LJE": {
+        "defaultName": "Epistle of Jeremiah",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "1-\u0435 \u041a\u043e\u0440\u0438\u043d\u0444\u044f\u043d\u0430\u043c",
-          "1 \u041a\u043e\u0440",
-          "1 \u041a\u0440",
-          "\u0430\u0483 \u043a\u044a \u043a\u043e\u0440\u0456\u0301\u043d\u0473\u0467\u043d\u0461\u043c\u044a"
+          "Epistle of Jeremiah",
+          "EpJer",
+          "Ep Jeremiah",
+          "Ep Jrm",
+          "Ltr Jeremiah",
+          "Ltr Jrm"
         ]
       },
-      "CO2": {
-        "defaultName": "2-\u0435 \u041a\u043e\u0440\u0438\u043d\u0444\u044f\u043d\u0430\u043c",
-        "defaultAbbreviation": "2 \u041a\u043e\u0440",
+      "JDT": {
+        "defaultName": "Judith",
+        "defaultAbbreviation": "Jdt",
         "inputFields": [
-          "2-\u0435 \u041a\u043e\u0440\u0438\u043d\u0444\u044f\u043d\u0430\u043c",
-          "2 \u041a\u043e\u0440",
-          "2 \u041a\u0440",
-          "\u0432\u0483 \u043a\u044a \u043a\u043e\u0440\u0456\u0301\u043d\u0473\u0467\u043d\u0461\u043c\u044a"
+          "Judith",
+          "Jdt",
+          "Jdth"
         ]
       },
-      "GAL": {
-        "defaultName": "\u041a \u0413\u0430\u043b\u0430\u0442\u0430\u043c",
-        "defaultAbbreviation": "\u0413\u0430\u043b",
+      "MAN": {
+        "defaultName": "Prayer of Manasses",
+        "defaultAbbreviation": "Man",
         "inputFields": [
-          "\u041a \u0413\u0430\u043b\u0430\u0442\u0430\u043c",
-          "\u0413\u0430\u043b",
-          "\u0413\u043b",
-          "\u041a\u044a \u0433\u0430\u043b\u0430\u0301\u0442\u0461\u043c\u044a",
-          "\u0433\u0430\u043b\u0430\u0301\u0442\u0461\u043c\u044a"
+          "Prayer of Manasses",
+          "Man",
+          "Manasses",
+          "Manasseh",
+          "Mnss",
+          "Mnsh",
+          "Pryr Man"
         ]
       },
-      "EPH": {
-        "defaultName": "\u041a \u0415\u0444\u0435\u0441\u044f\u043d\u0430\u043c",
-        "defaultAbbreviation": "\u0415\u0444",
+      "SIR": {
+        "defaultName": "Sirach",
+        "defaultAbbreviation": "Sir",
         "inputFields": [
-          "\u041a \u0415\u0444\u0435\u0441\u044f\u043d\u0430\u043c",
-          "\u0415\u0444",
-          "\u041a\u043e \u0454\u0486\u0444\u0435\u0441\u0435\u0301\u0454\u043c\u044a",
-          "\u0454\u0486\u0444\u0435\u0441\u0435\u0301\u0454\u043c\u044a"
+          "Sirach",
+          "Sir",
+          "Srch"
         ]
       },
-      "PHP": {
-        "defaultName": "\u041a \u0424\u0438\u043b\u0438\u043f\u043f\u0438\u0439\u0446\u0430\u043c",
-        "defaultAbbreviation": "\u0424\u043b\u043f",
+      "TOB": {
+        "defaultName": "Tobit",
+        "defaultAbbreviation": "Tob",
         "inputFields": [
-          "\u041a \u0424\u0438\u043b\u0438\u043f\u043f\u0438\u0439\u0446\u0430\u043c",
-          "\u0424\u043b\u043f",
-          "\u0424\u043f",
-          "\u041a\u044a \u0444\u044a \u0444\u0457\u043b\u0457\u043f\u043f\u0438\u0441\u0456\u0301\u0454\u043c\u044a",
-          "\u0444\u044a \u0444\u0457\u043b\u0457\u043f\u043f\u0438\u0441\u0456\u0301\u0454\u043c\u044a",
-          "\u0444\u0457\u043b\u0457\u043f\u043f\u0438\u0441\u0456\u0301\u0454\u043c\u044a"
+          "Tobit",
+          "Tob",
+          "Tobias",
+          "Tbt",
+          "Tbs"
         ]
       },
-      "COL": {
-        "defaultName": "\u041a \u041a\u043e\u043b\u043e\u0441\u0441\u044f\u043d\u0430\u043c",
-        "defaultAbbreviation": "\u041a\u043e\u043b",
+      "WIS": {
+        "defaultName": "Wisdom of Solomon",
+        "defaultAbbreviation": "Wis",
         "inputFields": [
-          "\u041a \u041a\u043e\u043b\u043e\u0441\u0441\u044f\u043d\u0430\u043c",
-          "\u041a\u043e\u043b",
-          "\u041a\u043b",
-          "\u041a\u044a \u043a\u043e\u043b\u043e\u0441\u0441\u0430\u0301\u0454\u043c\u044a",
-          "\u043a\u043e\u043b\u043e\u0441\u0441\u0430\u0301\u0454\u043c\u044a"
+          "Wisdom of Solomon",
+          "Wis",
+          "Wsdm of Slmn"
         ]
       },
-      "TH1": {
-        "defaultName": "1-\u0435 \u0424\u0435\u0441\u0441\u0430\u043b\u043e\u043d\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-        "defaultAbbreviation": "1 \u0424\u0435\u0441",
+      "MA1": {
+        "defaultName": "1 Maccabees",
+        "defaultAbbreviation": "1 Mac",
         "inputFields": [
-          "1-\u0435 \u0424\u0435\u0441\u0441\u0430\u043b\u043e\u043d\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-          "1 \u0424\u0435\u0441",
-          "1 \u0424\u0441",
-          "\u0430\u0483 \u043a\u044a \u0441\u043e\u043b\u0479\u0301\u043d\u0467\u043d\u0461\u043c\u044a",
-          "\u0430\u0483 \u0441\u043e\u043b\u0479\u0301\u043d\u0467\u043d\u0461\u043c\u044a"
+          "1 Maccabees",
+          "1 Mac",
+          "1 Mccbs",
+          "1 Mcbs"
         ]
       },
-      "TH2": {
-        "defaultName": "2-\u0435 \u0424\u0435\u0441\u0441\u0430\u043b\u043e\u043d\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-        "defaultAbbreviation": "2 \u0424\u0435\u0441",
+      "MA2": {
+        "defaultName": "2 Maccabees",
+        "defaultAbbreviation": "2 Mac",
         "inputFields": [
-          "2-\u0435 \u0424\u0435\u0441\u0441\u0430\u043b\u043e\u043d\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-          "2 \u0424\u0435\u0441",
-          "2 \u0424\u0441",
-          "\u0432\u0483 \u043a\u044a \u0441\u043e\u043b\u0479\u0301\u043d\u0467\u043d\u0461\u043c\u044a",
-          "\u0432\u0483 \u0441\u043e\u043b\u0479\u0301\u043d\u0467\u043d\u0461\u043c\u044a"
+          "2 Maccabees",
+          "2 Mac",
+          "2 Mccbs",
+          "2 Mcbs"
         ]
       },
-      "TI1": {
-        "defaultName": "1-\u0435 \u0422\u0438\u043c\u043e\u0444\u0435\u044e",
-        "defaultAbbreviation": "1 \u0422\u0438\u043c",
+      "MA3": {
+        "defaultName": "3 Maccabees",
+        "defaultAbbreviation": "3 Mac",
         "inputFields": [
-          "1-\u0435 \u0422\u0438\u043c\u043e\u0444\u0435\u044e",
-          "1 \u0422\u0438\u043c",
-          "1 \u0422\u043c",
-          "\u0430\u0483 \u043a\u044a \u0442\u0457\u043c\u043e\u0473\u0435\u0301\u044e",
-          "\u0430\u0483 \u0442\u0457\u043c\u043e\u0473\u0435\u0301\u044e",
-          "\u0430\u0483 \u0442\u043c\u043e\u0473\u0435\u0301\u044e"
+          "3 Maccabees",
+          "3 Mac",
+          "3 Mccbs",
+          "3 Mcbs"
         ]
       },
-      "TI2": {
-        "defaultName": "2-\u0435 \u0422\u0438\u043c\u043e\u0444\u0435\u044e",
-        "defaultAbbreviation": "2 \u0422\u0438\u043c",
+      "MA4": {
+        "defaultName": "4 Maccabees",
+        "defaultAbbreviation": "4 Mac",
         "inputFields": [
-          "2-\u0435 \u0422\u0438\u043c\u043e\u0444\u0435\u044e",
-          "2 \u0422\u0438\u043c",
-          "2 \u0422\u043c",
-          "\u0432\u0483 \u043a\u044a \u0442\u0457\u043c\u043e\u0473\u0435\u0301\u044e",
-          "\u0432\u0483 \u0442\u0457\u043c\u043e\u0473\u0435\u0301\u044e",
-          "\u0432\u0483 \u0442\u043c\u043e\u0473\u0435\u0301\u044e"
+          "4 Maccabees",
+          "4 Mac",
+          "4 Mccbs",
+          "4 Mcbs"
         ]
       },
-      "TIT": {
-        "defaultName": "\u041a \u0422\u0438\u0442\u0443",
-        "defaultAbbreviation": "\u0422\u0438\u0442",
+      "MA5": {
+        "defaultName": "5 Maccabees",
+        "defaultAbbreviation": "5 Mac",
         "inputFields": [
-          "\u041a \u0422\u0438\u0442\u0443",
-          "\u0422\u0438\u0442",
-          "\u0422\u0442\u0443",
-          "\u041a\u044a \u0442\u0456\u0301\u0442\u0479",
-          "\u0442\u0456\u0301\u0442\u0479"
+          "5 Maccabees",
+          "5 Mac",
+          "5 Mccbs",
+          "5 Mcbs"
         ]
       },
-      "PHM": {
-        "defaultName": "\u041a \u0424\u0438\u043b\u0438\u043c\u043e\u043d\u0443",
-        "defaultAbbreviation": "\u0424\u043b\u043c",
+      "PSB": {
+        "defaultName": "Psalms B",
+        "defaultAbbreviation": "LitPs",
         "inputFields": [
-          "\u041a \u0424\u0438\u043b\u0438\u043c\u043e\u043d\u0443",
-          "\u0424\u043b\u043c",
-          "\u0424\u043c",
-          "\u041a\u044a \u0444\u0457\u043b\u0438\u043c\u043e\u0301\u043d\u0479",
-          "\u0444\u0457\u043b\u0438\u043c\u043e\u0301\u043d\u0479"
+          "Psalms B",
+          "LitPs",
+          "Metrical Psalms",
+          "Mtrca Pslms",
+          "Alternative Psalms",
+          "Alt Psalms",
+          "Alt Pslms",
+          "Lit Psalms",
+          "Lit Pslms"
         ]
       },
-      "HEB": {
-        "defaultName": "\u041a \u0415\u0432\u0440\u0435\u044f\u043c",
-        "defaultAbbreviation": "\u0415\u0432\u0440",
+      "PS2": {
+        "defaultName": "Psalm 151",
+        "defaultAbbreviation": "Ps151",
         "inputFields": [
-          "\u041a \u0415\u0432\u0440\u0435\u044f\u043c",
-          "\u0415\u0432\u0440",
-          "\u041a\u043e \u0454\u0486\u0432\u0440\u0435\u0301\u0454\u043c\u044a",
-          "\u0454\u0486\u0432\u0440\u0435\u0301\u0454\u043c\u044a"
+          "Psalm 151",
+          "Ps151",
+          "Pslm 151"
         ]
       },
-      "JAM": {
-        "defaultName": "\u0418\u0430\u043a\u043e\u0432\u0430",
-        "defaultAbbreviation": "\u0418\u0430\u043a",
+      "PS3": {
+        "defaultName": "Syriac Psalms",
+        "defaultAbbreviation": "SyrPs",
         "inputFields": [
-          "\u0418\u0430\u043a\u043e\u0432\u0430",
-          "\u0418\u0430\u043a",
-          "\u0418\u043a\u0432",
-          "\u041f\u043e\u0441\u043b\u0430\u0301\u043d\u0457\u0435 \u0457\u0486\u0430\u0301\u043a\u0461\u0432\u043b\u0435",
-          "\u0457\u0486\u0430\u0301\u043a\u0461\u0432\u043b\u0435"
+          "Syriac Psalms",
+          "SyrPs",
+          "Syr Pslms"
         ]
       },
-      "PE1": {
-        "defaultName": "1-\u0435 \u041f\u0435\u0442\u0440\u0430",
-        "defaultAbbreviation": "1 \u041f\u0435\u0442",
+      "PSS": {
+        "defaultName": "Psalms of Solomon",
+        "defaultAbbreviation": "AddPs",
         "inputFields": [
-          "1-\u0435 \u041f\u0435\u0442\u0440\u0430",
-          "1 \u041f\u0435\u0442",
-          "1 \u041f\u0442\u0440",
-          "\u0430\u0483 \u043f\u0435\u0442\u0440\u0430\u0300",
-          "\u0430\u0483 \u043f\u0442\u0440\u0430\u0300"
+          "Psalms of Solomon",
+          "AddPs",
+          "Ps Sol",
+          "Slmn Pslms"
         ]
       },
-      "PE2": {
-        "defaultName": "2-\u0435 \u041f\u0435\u0442\u0440\u0430",
-        "defaultAbbreviation": "2 \u041f\u0435\u0442",
+      "LAO": {
+        "defaultName": "Laodiceans",
+        "defaultAbbreviation": "Lao",
         "inputFields": [
-          "2-\u0435 \u041f\u0435\u0442\u0440\u0430",
-          "2 \u041f\u0435\u0442",
-          "2 \u041f\u0442\u0440",
-          "\u0432\u0483 \u043f\u0435\u0442\u0440\u0430\u0300",
-          "\u0432\u0483 \u043f\u0442\u0440\u0430\u0300"
+          "Laodiceans",
+          "Lao",
+          "Eps Lao",
+          "Ltr Lao"
         ]
       },
-      "JN1": {
-        "defaultName": "1-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-        "defaultAbbreviation": "1 \u0418\u043d",
+      "ODE": {
+        "defaultName": "Odes",
+        "defaultAbbreviation": "Ode",
         "inputFields": [
-          "1-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-          "1 \u0418\u043d",
-          "\u0430\u0483 \u0457\u0486\u0461\u0430\u0301\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "\u0430\u0483 \u0457\u0486\u0461\u0301\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "1 \u0407\u0461"
+          "Odes",
+          "Ode",
+          "Odae"
         ]
       },
-      "JN2": {
-        "defaultName": "2-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-        "defaultAbbreviation": "2 \u0418\u043d",
+      "PSO": {
+        "defaultName": "Prayer of Solomon",
+        "defaultAbbreviation": "PrSol",
         "inputFields": [
-          "2-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-          "2 \u0418\u043d",
-          "\u0432\u0483 \u0457\u0486\u0461\u0430\u0301\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "\u0432\u0483 \u0457\u0486\u0461\u0301\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "2 \u0407\u0461"
+          "Prayer of Solomon",
+          "PrSol",
+          "Pryr Slm"
         ]
       },
-      "JN3": {
-        "defaultName": "3-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-        "defaultAbbreviation": "3 \u0418\u043d",
+      "PJE": {
+        "defaultName": "Prayer of Jeremiah",
+        "defaultAbbreviation": "PrJer",
         "inputFields": [
-          "3-\u0435 \u0418\u043e\u0430\u043d\u043d\u0430",
-          "3 \u0418\u043d",
-          "\u0433\u0483 \u0457\u0486\u0461\u0430\u0301\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "\u0433\u0483 \u0457\u0486\u0461\u043d\u043d\u0430 \u0431\u0433\u0483\u043e\u0441\u043b\u043e\u0301\u0432\u0430",
-          "3 \u0407\u0461"
+          "Prayer of Jeremiah",
+          "PrJer",
+          "Pryr Jeremiah"
         ]
       },
-      "JDE": {
-        "defaultName": "\u0418\u0443\u0434\u044b",
-        "defaultAbbreviation": "\u0418\u0443\u0434",
+      "WSI": {
+        "defaultName": "Words of Sirach",
+        "defaultAbbreviation": "WrdsSir",
         "inputFields": [
-          "\u0418\u0443\u0434\u044b",
-          "\u0418\u0443\u0434",
-          "\u0418\u0434",
-          "\u041f\u043e\u0441\u043b\u0430\u0301\u043d\u0457\u0435 \u0457\u0486\u0479\u0301\u0434\u0438\u043d\u043e",
-          "\u0457\u0486\u0479\u0301\u0434\u0438\u043d\u043e"
+          "Words of Sirach",
+          "WrdsSir",
+          "Wrds Sirach",
+          "Wrds Srch"
         ]
       },
-      "REV": {
-        "defaultName": "\u041e\u0442\u043a\u0440\u043e\u0432\u0435\u043d\u0438\u0435",
-        "defaultAbbreviation": "\u041e\u0442\u043a\u0440",
+      "COP": {
+        "defaultName": "Epistle of Corinthians to Paul",
+        "defaultAbbreviation": "EpCor",
         "inputFields": [
-          "\u041e\u0442\u043a\u0440\u043e\u0432\u0435\u043d\u0438\u0435",
-          "\u041e\u0442\u043a\u0440",
-          "\u0410\u0486\u043f\u043e\u043a\u0430\u0301\u043b\u0477\u0471\u0457\u0441\u044a"
+          "Epistle of Corinthians to Paul",
+          "EpCor",
+          "Ep Corinthians",
+          "Ep Crnthns",
+          "Ltr Corinthians",
+          "Ltr Crnthns"
         ]
       },
-      "BAR": {
-        "defaultName": "\u0412\u0430\u0440\u0443\u0445",
-        "defaultAbbreviation": "\u0412\u0430\u0440",
+      "CO3": {
+        "defaultName": "3 Corinthians",
+        "defaultAbbreviation": "3 Cor",
         "inputFields": [
-          "\u0412\u0430\u0440\u0443\u0445",
-          "\u0412\u0430\u0440",
-          "\u0412\u0440\u0445",
-          "\u0412\u0430\u0440\u0479\u0301\u0445\u044a",
-          "\u0412\u0440\u0479\u0301\u0445\u044a"
+          "3 Corinthians",
+          "3 Cor",
+          "3 Crnthns"
         ]
       },
-      "GES": {
-        "defaultName": "3-\u044f \u0415\u0437\u0434\u0440\u044b",
-        "defaultAbbreviation": "3 \u0415\u0437\u0434",
+      "EUT": {
+        "defaultName": "Prayer of Euthalius",
+        "defaultAbbreviation": "Eut",
         "inputFields": [
-          "3-\u044f \u0415\u0437\u0434\u0440\u044b",
-          "3 \u0415\u0437\u0434",
-          "\u0433\u0483 \u0435\u0486\u0301\u0437\u0434\u0440\u044b"
+          "Prayer of Euthalius",
+          "Eut",
+          "Pr Eut"
         ]
       },
-      "LES": {
-        "defaultName": "2-\u044f \u0415\u0437\u0434\u0440\u044b",
-        "defaultAbbreviation": "2 \u0415\u0437\u0434",
+      "DOJ": {
+        "defaultName": "Dormition of John",
+        "defaultAbbreviation": "DoJ",
         "inputFields": [
-          "2-\u044f \u0415\u0437\u0434\u0440\u044b",
-          "2 \u0415\u0437\u0434",
-          "\u0432\u0483 \u0435\u0486\u0301\u0437\u0434\u0440\u044b"
+          "Dormition of John",
+          "DoJ",
+          "Drm Jhn",
+          "Drm Jn"
         ]
       },
-      "LJE": {
-        "defaultName": "\u041f\u043e\u0441\u043b\u0430\u043d\u0438\u0435 \u0418\u0435\u0440\u0435\u043c\u0438\u0438",
-        "defaultAbbreviation": "\u041f\u043e\u0441\u043b",
+      "TTP": {
+        "defaultName": "Testaments of the Twelve Patriarchs",
+        "defaultAbbreviation": "Tst12",
         "inputFields": [
-          "\u041f\u043e\u0441\u043b\u0430\u043d\u0438\u0435 \u0418\u0435\u0440\u0435\u043c\u0438\u0438",
-          "\u041f\u043e\u0441\u043b",
-          "\u041f\u043e\u0441\u043b\u0430\u0301\u043d\u0457\u0435 \u0457\u0435\u0440\u0435\u043c\u0456\u0301\u0438\u043d\u043e"
+          "Testaments of the Twelve Patriarchs",
+          "Tst12",
+          "Tst 12P",
+          "Tst Twelve"
         ]
       },
-      "JDT": {
-        "defaultName": "\u0418\u0443\u0434\u0438\u0444\u044c",
-        "defaultAbbreviation": "\u0418\u0443\u0434\u0444",
+      "JUB": {
+        "defaultName": "Jubilees",
+        "defaultAbbreviation": "Jub",
         "inputFields": [
-          "\u0418\u0443\u0434\u0438\u0444\u044c",
-          "\u0418\u0443\u0434\u0444",
-          "\u0418\u0434\u0444",
-          "I\u0443\u0434\u0444",
-          "I\u0486\u0443\u0434i \u0473"
+          "Jubilees",
+          "Jub",
+          "Jbls"
         ]
       },
-      "MAN": {
-        "defaultName": "\u041c\u043e\u043b\u0438\u0442\u0432\u0430 \u041c\u0430\u043d\u0430\u0441\u0441\u0438\u0438",
-        "defaultAbbreviation": "\u041c\u043e\u043b",
+      "ENO": {
+        "defaultName": "Enoch",
+        "defaultAbbreviation": "Eno",
         "inputFields": [
-          "\u041c\u043e\u043b\u0438\u0442\u0432\u0430 \u041c\u0430\u043d\u0430\u0441\u0441\u0438\u0438",
-          "\u041c\u043e\u043b",
-          "\u041c\u043b"
+          "Enoch",
+          "Eno",
+          "Ench",
+          "1 Enoch",
+          "1 Ench"
         ]
       },
-      "SIR": {
-        "defaultName": "\u0421\u0438\u0440\u0430\u0445",
-        "defaultAbbreviation": "\u0421\u0438\u0440",
+      "EN2": {
+        "defaultName": "2 Enoch",
+        "defaultAbbreviation": "2 Eno",
         "inputFields": [
-          "\u0421\u0438\u0440\u0430\u0445",
-          "\u0421\u0438\u0440",
-          "\u0421\u0440\u0445",
-          "\u0421i\u0440\u0430\u0445\u044a",
-          "\u0421\u0440\u0445\u044a"
+          "2 Enoch",
+          "2 Eno",
+          "2 Ench"
         ]
       },
-      "TOB": {
-        "defaultName": "\u0422\u043e\u0432\u0438\u0442",
-        "defaultAbbreviation": "\u0422\u043e\u0432",
+      "EZA": {
+        "defaultName": "Apocalypse of Ezra",
+        "defaultAbbreviation": "ApEz",
         "inputFields": [
-          "\u0422\u043e\u0432\u0438\u0442",
-          "\u0422\u043e\u0432",
-          "\u0422\u0432\u0442",
-          "\u0422\u0461\u0432\u0456\u0301\u0442"
+          "Apocalypse of Ezra",
+          "ApEz",
+          "Ap Ezra"
         ]
       },
-      "WIS": {
-        "defaultName": "\u041f\u0440\u0435\u043c\u0443\u0434\u0440\u043e\u0441\u0442\u044c \u0421\u043e\u043b\u043e\u043c\u043e\u043d\u0430",
-        "defaultAbbreviation": "\u041f\u0440\u0435\u043c",
+      "EZ5": {
+        "defaultName": "5 Ezra",
+        "defaultAbbreviation": "5 Ezr",
         "inputFields": [
-          "\u041f\u0440\u0435\u043c\u0443\u0434\u0440\u043e\u0441\u0442\u044c \u0421\u043e\u043b\u043e\u043c\u043e\u043d\u0430",
-          "\u041f\u0440\u0435\u043c",
-          "\u041f\u0440\u043c",
-          "\u041f\u0440\u0435\u043c\u0479\u0301\u0434\u0440\u043e\u0441\u0442\u0438 \u0441\u043e\u043b\u043e\u043c\u0461\u0301\u043d\u0438"
+          "5 Ezra",
+          "5 Ezr",
+          "5 Esdras"
         ]
       },
-      "MA1": {
-        "defaultName": "1-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-        "defaultAbbreviation": "1 \u041c\u0430\u043a",
+      "EZ6": {
+        "defaultName": "6 Ezra",
+        "defaultAbbreviation": "6 Ezr",
         "inputFields": [
-          "1-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-          "1 \u041c\u0430\u043a",
-          "1 \u041c\u043a\u043a",
-          "\u0430\u0483 \u043c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467",
-          "\u0430\u0483 \u043c\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467"
+          "6 Ezra",
+          "6 Ezr",
+          "6 Esdras"
         ]
       },
-      "MA2": {
-        "defaultName": "2-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-        "defaultAbbreviation": "2 \u041c\u0430\u043a",
+      "REP": {
+        "defaultName": "Reproof",
+        "defaultAbbreviation": "Rep",
         "inputFields": [
-          "2-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-          "2 \u041c\u0430\u043a",
-          "2 \u041c\u043a\u043a",
-          "\u0432\u0483 \u043c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467",
-          "\u0432\u0483 \u043c\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467"
+          "Reproof",
+          "Rep",
+          "Rprf"
         ]
       },
-      "MA3": {
-        "defaultName": "3-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-        "defaultAbbreviation": "3 \u041c\u0430\u043a",
+      "MQ1": {
+        "defaultName": "1 Meqabyan",
+        "defaultAbbreviation": "1 Meq",
         "inputFields": [
-          "3-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-          "3 \u041c\u0430\u043a",
-          "3 \u041c\u043a\u043a",
-          "\u0433\u0483 \u043c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467",
-          "\u0433\u0483 \u043c\u043a\u043a\u0430\u0432\u0435\u0439\u0301\u0441\u043a\u0430\u0467",
-          "3 \u041c\u0430"
+          "1 Meqabyan",
+          "1 Meq",
+          "1 Mqbyn",
+          "1 Makabian",
+          "1 Mkbn",
+          "Mekabis of Benjamin",
+          "Mekabis Benjamin",
+          "Mkbs Bnjmn"
         ]
       },
-      "MA4": {
-        "defaultName": "4-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-        "defaultAbbreviation": "4 \u041c\u0430\u043a",
+      "MQ2": {
+        "defaultName": "2 Meqabyan",
+        "defaultAbbreviation": "2 Meq",
         "inputFields": [
-          "4-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-          "4 \u041c\u0430\u043a",
-          "4 \u041c\u043a\u043a"
+          "2 Meqabyan",
+          "2 Meq",
+          "2 Mqbyn",
+          "2 Makabian",
+          "2 Mkbn",
+          "Mekabis of Moab",
+          "Mekabis Moab",
+          "Mkbs Mb"
         ]
       },
-      "MA5": {
-        "defaultName": "5-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-        "defaultAbbreviation": "5 \u041c\u0430\u043a",
+      "MQ3": {
+        "defaultName": "3 Meqabyan",
+        "defaultAbbreviation": "3 Meq",
         "inputFields": [
-          "5-\u044f \u041c\u0430\u043a\u043a\u0430\u0432\u0435\u0439\u0441\u043a\u0430\u044f",
-          "5 \u041c\u0430\u043a",
-          "5 \u041c\u043a\u043a"
+          "3 Meqabyan",
+          "3 Meq",
+          "3 Mqbyn",
+          "3 Makabian",
+          "3 Mkbn"
         ]
       },
-      "LAO": {
-        "defaultName": "\u041a \u041b\u0430\u043e\u0434\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-        "defaultAbbreviation": "\u041b\u0430\u043e\u0434",
+      "BA2": {
+        "defaultName": "2 Baruch",
+        "defaultAbbreviation": "2 Bar",
         "inputFields": [
-          "\u041a \u041b\u0430\u043e\u0434\u0438\u043a\u0438\u0439\u0446\u0430\u043c",
-          "\u041b\u0430\u043e\u0434",
-          "\u041b\u0434"
+          "2 Baruch",
+          "2 Bar",
+          "2 Brch",
+          "Apocalypse of Baruch",
+          "Apoc of Baruch",
+          "Apoc Baruch"
         ]
       },
-      "PRF": {
-        "defaultName": "Preface",
-        "defaultAbbreviation": "Prf",
+      "BA3": {
+        "defaultName": "3 Baruch",
+        "defaultAbbreviation": "3 Bar",
         "inputFields": [
-          "Preface",
-          "Prf",
-          "Pre"
+          "3 Baruch",
+          "3 Bar",
+          "3 Brch"
         ]
       },
-      "ACK": {
-        "defaultName": "Acknowledgements",
-        "defaultAbbreviation": "Ack",
+      "BA4": {
+        "defaultName": "4 Baruch",
+        "defaultAbbreviation": "4 Bar",
         "inputFields": [
-          "Acknowledgements",
-          "Ack"
+          "4 Baruch",
+          "4 Bar",
+          "4 Brch",
+          "Paralipomenon of Jeremiah",
+          "Prlp of Jrmh",
+          "Rest of Words of Baruch"
         ]
       },
-      "INT": {
-        "defaultName": "Introduction",
-        "defaultAbbreviation": "Intr",
+      "LBA": {
+        "defaultName": "Epistle of Baruch",
+        "defaultAbbreviation": "EpBar",
         "inputFields": [
-          "Introduction",
-          "Intr"
+          "Epistle of Baruch",
+          "EpBar",
+          "Ep Baruch",
+          "Ep Brch",
+          "Epi Baruch",
+          "Epis Baruch",
+          "Letter of Baruch",
+          "Ltr of Baruch",
+          "Ltr Baruch"
         ]
       },
-      "FRT": {
-        "defaultName": "Front Matter",
-        "defaultAbbreviation": "FrtMatter",
+      "LJB": {
+        "defaultName": "Epistle of Jeremiah (with Baruch)",
+        "defaultAbbreviation": "EpJer",
         "inputFields": [
-          "Front Matter",
-          "FrtMatter",
-          "FM"
+          "Epistle of Jeremiah (with Baruch)",
+          "EpJer",
+          "Ep Jer"
         ]
       },
-      "TOC": {
-        "defaultName": "Table of Contents",
-        "defaultAbbreviation": "ToC",
+      "CL1": {
+        "defaultName": "1 Clement",
+        "defaultAbbreviation": "1 Cle",
         "inputFields": [
-          "Table of Contents",
-          "ToC"
+          "1 Clement",
+          "1 Cle",
+          "1 Clmnt"
         ]
       },
-      "BAK": {
-        "defaultName": "Back Matter",
-        "defaultAbbreviation": "Back",
+      "CL2": {
+        "defaultName": "2 Clement",
+        "defaultAbbreviation": "2 Cle",
         "inputFields": [
-          "Back Matter",
-          "Back",
-          "Bck"
+          "2 Clement",
+          "2 Cle",
+          "2 Clmnt"
         ]
       },
-      "MAP": {
-        "defaultName": "Maps",
-        "defaultAbbreviation": "Maps",
+      "SHE": {
+        "defaultName": "Shepherd of Hermas",
+        "defaultAbbreviation": "Her",
         "inputFields": [
-          "Maps",
-          "Mps"
+          "Shepherd of Hermas",
+          "Her",
+          "Hermas",
+          "Hrms",
+          "Shep Hermas"
         ]
       },
-      "XXA": {
-        "defaultName": "Extra Book A",
-        "defaultAbbreviation": "ExtraA",
+      "DID": {
+        "defaultName": "Didache",
+        "defaultAbbreviation": "Did",
         "inputFields": [
-          "Extra Book A",
-          "ExtraA"
+          "Didache",
+          "Did",
+          "Ddch"
         ]
       },
-      "XXB": {
-        "defaultName": "Extra Book B",
-        "defaultAbbreviation": "ExtraB",
+      "MOS": {
+        "defaultName": "Moses",
+        "defaultAbbreviation": "Mos",
         "inputFields": [
-          "Extra Book B",
-          "ExtraB"
+          "Moses",
+          "Mos",
+          "Mss"
         ]
       },
-      "XXC": {
-        "defaultName": "Extra Book C",
-        "defaultAbbreviation": "ExtraC",
+      "SAM": {
+        "defaultName": "Samuel",
+        "defaultAbbreviation": "Sam",
         "inputFields": [
-          "Extra Book C",
-          "ExtraC"
+          "Samuel",
+          "Sam",
+          "Sml"
         ]
       },
-      "XXD": {
-        "defaultName": "Extra Book D",
-        "defaultAbbreviation": "ExtraD",
+      "KGS": {
+        "defaultName": "Kings",
+        "defaultAbbreviation": "Kgs",
         "inputFields": [
-          "Extra Book D",
-          "ExtraD"
+          "Kings",
+          "Kgs",
+          "Kngs"
         ]
       },
-      "XXE": {
-        "defaultName": "Extra Book E",
-        "defaultAbbreviation": "ExtraE",
+      "CHR": {
+        "defaultName": "Chronicles",
+        "defaultAbbreviation": "Chr",
         "inputFields": [
-          "Extra Book E",
-          "ExtraE"
+          "Chronicles",
+          "Chr",
+          "Chrncls"
         ]
       },
-      "XXF": {
-        "defaultName": "Extra Book F",
-        "defaultAbbreviation": "ExtraF",
+      "EZN": {
+        "defaultName": "Ezra-Nehemiah",
+        "defaultAbbreviation": "EzNeh",
         "inputFields": [
-          "Extra Book F",
-          "ExtraF"
+          "Ezra-Nehemiah",
+          "EzNeh",
+          "Ezr Neh"
         ]
       },
-      "XXG": {
-        "defaultName": "Extra Book G",
-        "defaultAbbreviation": "ExtraG",
+      "P12": {
+        "defaultName": "Twelve Prophets",
+        "defaultAbbreviation": "TwProp",
         "inputFields": [
-          "Extra Book G",
-          "ExtraG"
+          "Twelve Prophets",
+          "TwProp",
+          "12 Prophets"
         ]
       }
     }
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleBooksNames_Tables.pickle
index 5ed875e89b1e007a49f38b3ac9929f4ca7d3e3de..dda6faff306c60fd392e29b5c54f80abf3781104 100644
GIT binary patch
delta 16873
zcmZ9TcYGDq_P5<9$*lC8l9QbDgmlsqQc0)x4nYAa0h0is20`g~1(d#k4M>rqR}ht=
zU;zZAC`BoHuMH_Sn$lFjOL_Nqk3aPD`p5V@YbSH&%n7r~%(;HR_~C%znCia7>oM^d
z{+qNoX-+`(;0Dg>>)M*^C%o*<2aJiX7&dk=7l~L=!Tp3w9(YpJT53w=03Xp-PV6sM
zSZbb-VFSd|?lm<vwQ}VE@vWt1x|}pnjCZeDP_s}z94KbH*Q~GEzz;3^W%p_k?Ot=R
z=8&9REylRloT@o3|5q)xx!3$s^Q+uBSQNO|{8sb3ygOKQwbVT1ik6EgP#s>KQ^=A2
zV)o9_Pl-xF9T4g$<OemPf_gxD3h7p>q%WkOknL(k3mOa=BBZPp<un{pFXVT%q9rvz
z#tE5HC(`Lz$V4Ig*NIrqsY>Qpx{l@kLz3xvtjrX=U`RI20nZgI_PC_)P!UFp5MUwG
zhl&)EkY#Egkd=^CLM|FA+Rz5bD?(lvDk^C+<PG(@!$cx&g=`bD_b`#>wG;BL+VHdw
zopQr4;k4{lZ*Z8%q61huDCDhSqKu9~jtf~hT)o@Vkk5sjHeBud8_2gp9vQCQ?FGp9
zLfYy@8eN2360$|T$fjQ**Myv0uXg<#<aZ%=)T`gQ2e~hJ<dPJ!SQNWiWX1^5*y3s7
z>zx`~{4Lyne~jI&)4&0XYqI+;PO1yUPdP2}{SoS2heE<E@+u@65@V5(BSk7DKoTvo
z%Sh4GD;<)dHay~^RBIDhuG-A;czj5G-2h%F<EaS2rWQWiB~pfs5+PK9K&3@C9i@)B
z6{NL=vzEE!i&*V|Ku3#weUy3=Js>?T^5!V@Ui(1$T4c&-^)U~G46?}nqt$7wh16N(
ztD{9ejev}_$R9?FrZf)nv_&S25d}06GRYzbk5PM@4w+$*tH-Fl&4SFf$kSugA<cu#
zw@9C{qL7wAmRe-Hv7#BRgsig2C1XVgS`XP^k(b7*Kfz6q*DW%yLFC)FK(?yQ9LkRF
zK74G=8151j=d}ajood6@BY|>ngK*I<gmzox*#?pAwIA{k)>DsWd3_A~1UB+$f_!G2
z@TE@?`phEdjuX}NCFCoMyaTxa`Q9Q2JuL>%Rmd+EdGu-Zo^L^Zvq<mp>Z7|0`O_jx
z#;dpa5b~ItY#6W3li{X>-1y<K0`dj>xpC?7BC>-WZan39DY?KQZgN^j^;Z}PiE@)$
zCa7J-LE_yw^V25O7@Xq9$JQ27COFHDeb<#x9ys5PJFn|WW#Do*eq&uBwE(wt<6qYG
zpibb<Zt~@4)xq|F^mOBi>swM^a6dO0Jy8_XAV{^^>xOcw0}plMh0m1JDDY@Ed1Ipb
z%NY-u;Kt`Slp9mPQ~6{>D4#nSXFLy`$sHq^76I8!4(KL|Xc=U=8=rkpW~>IU;rgfw
zdIk8Z8`~xo&}Q%(ZoKt$5p4r+S1&!OjNS#m=O(XDQGX?SARoGM%;d-EAo!4aM?J)F
z`V{h+n+%vH%8bt;U+}q@rpDL6Z#bq=dzoqxesmsw!A+K1)Zg|+$R#Dc)H(STa?MTF
zPZ!OMKOna`Gq!~80q?sltx|v37I(#N?sAHo$RSUNm%FT=p;r7M0qz_fmqUSIr@K5q
zLrkYANVGe5nf|oV7@WfW<J%e8z#QHhUuQH07IREO6RH4Ky32G!Ory4tcJ6ZI6Ji7P
zg!FQk14uM6`at^fiNrh_2pr@t=gw50UJazyU7nb!uIVEoqugaoU-jn3L7sM(on|SS
z2$|$Ak9(@?&veKPclpp${jtr0%yySI`l^4P^C0uxWmZ46>&1{I?sCLz5#%0F-7t3h
z$um~LXSO${gIGG`&i-#Nv7B<}SKhurKOpp@JI{M(1KkGSap%Gv_b9|eai|9u@0?|c
z_uxZ2H&YQpO+B_xc-QJilOU5lc)<s)=y~u=556(4lIDTudvM~ewj{yJJb3)B7PJQZ
zvIig7)rnpMZ}i~M-C6V|_$?3ay1Rhh0q^kOg}XE91Mn`jf0d^8f%ki;G?hb#!5@2Y
z(>*D441C;!hwn+Fli*Vxymn7M{TKYD2cO-OPG`X1dFbq9y#V=MZRU7%tQlTAfH${~
zr;7+)^5FhH*_LY_@<y3(^4<@F>378c@Zj%0%%uN;?|HCuZzc&tvBlu_d-KQ>>}Bxm
zz4;UXwi<kRZ#p@_K?dL3n@eHfaDxl>RZ=5xtijXv71@))jn!t3(R@IC?ciaH<->ZB
zOqqyh8GL_Vx+TxxwEbC@5<_LFG-`&G<_0g`pJr)em`SM<Vx0{$DfNK#G-Pyh5i37k
zD(ut;k-i33f0R#yz|{t?`>25Gz(Wl_|4}y@3vMvD>4B#7EO?^9lMb|?8Q|v({^USM
znggC|aOA-z#NfpS_db|QE5I)qyyRdTS_fWl@Q(-E(I)Wg2In6tp{?L;20wc!pLT-Z
zHTb<l*|ZzH$KacXa_Ip0puy>fv*`%<sKHMiuBOkyUl@Gq@UwIle9qwRAJ3yp;L8SI
z`uKUe1^&(8ai6rLKf(Vq_@hrsNRVO+F&$}Q^#psV%^aiUu))Jea8^|?4?Ge=0a&mS
zPe0O;T;LGm{~oENXmAX1^wAPZ1Sb(!A1$MFa0c<Fqm`5k&Lh61xENeQTzsr4H3K&%
zo_s8y+Jf5=?>bgYUBF#Qr<Y#fD$?ntFSsA+^fCxsO=fzjh18LmUPeGhl1?uT;BlnW
z%d_B#q|?hZ@O0AY<puDIq|?g+@Iun*Wd-;pGSkb;khP@K%WL3`WTuxlA#bU@s`T;>
zcn9h9vJ1SM%=GdR<NzVP&=K%a;(hl^=p^_Qai_>dbO!t#naSmQ$Pa|%LYKgoiAO}0
z({=C-(%I!U_zvmpav%Iay|T(KZk~$WJ<aUm1@ZRO*~JRBd79ZJ1QP10vkOH*qCNS1
zOcBL{6FlX4A*v`9lICgVmK;bECCDv>kRnf=Tc`q3>B(8K#ncMi+EXW&4&aWSW^(BU
z>8^eQ$)z{saZjCGo&@(-uZZMQ2N~*#<U$SLah^ONzAa4xPxj<#U)9p{;F+F$<EtE+
z1D@+?=9eXqrJiPfSqoX`sq+i{8}gbbpG?f9H^6Utnh9n*<ZVwg!F&MO<!L6EeUSa0
zW`a2k`PkD;FvlUEdYTF5G~{znGr@cX`P$P=FlQm>JavNEK5S;HAgh;(*t~entS2nt
zUNW=4XfI#)5j~A`EM)MsC+AWHu+mE|7$gqJC;db?4ML>ai=$rbVyXAyvX+Z!213ty
zp)VT8g&tEp>sBMO#%sIx+!cbpf_&}8$6J@tdGG}<opdgNFMDyHHWhROeAA0lJzLOS
z@Sk3My-g(vZ^agG-shQ01orgiVQo{$5A5%)la2!%=*@k-3MmvE=FO|T3MdBL$eX`a
z@g#7vH-~$dQU*BFn+JHer+jdMH>b9*q%v^1H{bV8qUPWhD(;g;ZNcrlb*ky&jZ_n~
zh@I36;VN$~?T~5o1^46h+C+Y-LoiiC2YYjcZ+jXB9`4P)9T(Cw;Ahod{gP-3c&ayV
zU7SPz0zdD~ex2IV9PnIk?$;@e7J=DY_d(0R%e~D$XtlTQgEpvx+8@N$rNOib%ddNL
z=gz6L1-w<g!KEp*1H99lO9BdM5BNiGbU$$%(#1uG5IF43djopY3Ghj8j<%N5m*B6w
zRojzKXTj&ZIihO@{RsZaTQxixbOn6Xn{BqKbQk=mH(R@PAd8P;Hy^%gt0Zr*j}O10
z;tp`24~y>2C=?v#!xcA!xqL+wMZ;r!*y?CX3E)H@-g7gY>m4DK3QzOld5$c~2Iu&2
zX^&zm1Q+@6v>xNB1-PZpqMi-Z8Q8^#C-$65kAt7^;qxoUQ#E+75BFb{OLgF(>Lq$*
zc#Q;)Qk%aUn{fy|?ZaDx@@NuxvJd|nltwea&-w6*s$zN(JjaL6RAtdZ@FE{x6`Vm5
zyv&E&_0FJG;MM8~6|V<x@ZmC7Ds2RB^5Lm>g8A&45PA!~#fM`ack&)rH0^-z^w9}t
z7kIaN$Eu&%5B|u9KX|z{eF8q>V<w!>ASZl~aDw?^NECg6z<+%B*|lxy4EQ@Aopinj
z|KOvO&L!|=ADwh=f^VtMN%b^$z;}Ig(y{m|cJnopjwi&+S0^1S*yd{{oghfCFOrTC
z0gmJa&s0zxFy7b9IVq4-U!8NZ!8yJ<=M;jAe09!g0dDDQ=A3qr_P#pjbOCquMb0s*
zz`fZzsgRxo_V-1~F$RN&@PbL@G!!_@S7#h!6l63<PkzD}51hc$CfCz6;B;Rz-OPl{
zQirC}&0O$2Uo+h-hAi<l)6Gkel}eCq)<V|#n(1aEWRtH>H*bNr`08}?4tR&JnQlIS
z>{7phbh8h#-&d!b!{CqAD<a*Tf}Hl%>E;ahJ71k{egyyItJBS|;A_4*-TVgr-PcSv
z_aP5_&2;1Cr^MUOOg8}#tDjCcPH>Q)nQp=$;eI;Z1jIt()Mk!*^Xfr0ob`ADB_r0@
zkI$9lQ3g2Ek0VOcs0ldNkGqs+Qz5v>k6$RwqcU*0AD`cn>fapPLT%=_RSp`;`^w@h
zZT+}nYc6%hN*DE0Ph?nofP1RV;D$MFRaMP+U%7+JD;)GV7M}3q4t+A{NpOEZUQm%i
z)!@N?{GN)}g6sVFTAvL6dhiIf8Qjn?bMZp|u$@=EM1U|>Bff@L&+22@<o9=yqg{ya
z_LKJqiaGQd<b>Zp(%cP1Zu;poch66!Ih(%<+5I1-IjT!VByGFb+?NDB1+MW&mNQ0x
zNAmS~&FE?1cz+~0V+wdGPn+M8W&&sV>l`;9yue@QxFz7F{yN9K1YYT{bKF|+I)9zx
zUITCR*E#Mj@D_ia<92{|`s*CG8@$I~=eUF5L;gC)9S48vuXEff@M#rSIqpmFSN=N3
zo%Mf|<9<Z=Cx7HPx&prH&l$A|I?3IH-}2W<?oaUl{E_4g&j7_<JZ*8Z;Rp2REsL9w
z0~i>fQ(P!GEC4Cahz7^-h$X2;0x*%+E=jSZ2I%~j9q=f>6=1P20Qt=*1($LErK!{$
z*djouxAx!;0e`2r?g;b<(CMuo_{jjB-iCmm3ef3oIJiCl>CG4e9?O}_GHC+vnE;*L
zW`bu0AiEh0zzexzc{5rDTppm4+gk9t0G-@k18)p?l-%BgzomX%CAYW1?*u$bZtufC
z2++xGFL+;oPHu<69|!2<b{hP70Fv8xz_S55xm^Tb3ed^zCis>*St_~R0pC?Gp_1DJ
z@I$rvJGr@ARmj7tlba9N*Q%474Q#jS<Q4)Bwd&*+1&+4r<Q5N3u<GQN0#3E+<dy}_
zw(8`T4=%7iN^T|aQtPAS)*Rl#s*_t=a62oKo6#BEh2MX<4fO(6S<T$m7t+uAD7P7d
z5UA#7*0wW-0*CR@wME7#;Ar+)S86;B9M7HB^)jXcr}5@>MaJ{MnS51E@D>0UT6I=4
zmO>;yyS^2z2ClK{q-Jb@yuv;kD(H3KW~*+bwt=@>&7}4o<bA77YJ0)^tSYI6@Rf*E
zIt>5V%8`+c=@|I9RVTSG!CzU;B=;TUtW_tuAHY9abz^k}eATKOtDE3k>H||_yF1{!
z>PS>$^#J_PYBpBxHYFZ5-B|g6eQjoA6$o+K%uE*w3A5=;7Y&ZFA=9<v;f-uwi3lXA
zjr5-`5-1g#W;63$HYCSp=DQ+DQ=86r<=_gN&UY=rt!!q#YY*w5egpZgE2NuE=esI!
zZ}qy!cY`3+Hl6S4!6R(Qcg8sI(|mq&oiPPCmAkyrg#HD5-ezXId64-wWIOfgC0c0(
z0x#KkQDOnT3|?!~3GY?#zisT7)XZx$_zks@*Jp}&+6vufGaIa(kaulngS8v7$7VKI
zA3+Y-%m(Wd$Pt^_V0{KTVdEvqt>_Eze{B4Hayfks{>H|Q8<)^o@HrdTH!i0iz(3mf
zoyI9%m%x|RhNqs%q+emz)G117Nxy-AxAE|lJh}`1)5e=pGUx&Lp^eWecC#yXw{uWx
z26=+L?A%_lAK2f{(-qsn4m-b_nn%H4mz{r4&7yE{gq_pU+EEO+k)5Zc<xm1R(a!Is
z6;TQ})y{vW<x(a%%g%Y}Ig|^|v-8OGLMj3`weyzrd@2K%+xge@Txt$(Vdusfxzq;S
z*3Lr|cLaB`^SX>8>IUv^=kGJxQ5CqiopUn_tbM`#)CT21_lo8`BHzi2GJ|O#76z#o
z%PgR$z%_Qhmf4Pmfrs0<A}gOpfk&%1la)i`z)!0;lT}I2f+yP9lHHl6f~VQJcXk2&
z3;evDmt`l@3*Z;+{Bd?0nh#!JXID-(Ee0>KbC;YBv>d#`&adR;(rWM;JD<-<r}f|s
z>ceP~La%{0+PQU;e0l@?rk$T}l1<yd+wJ^elTz9Ve%H?Kxh1p<yj%TzZZ7Qu@3-@F
zxhd8|;KOR8Peiv0&Qd4h^V|^YQ7jyLv{1=g^PFtY3!@WQIBDl5c{%h2_&;{8SNt{j
z8#}+2S4d~U=j?n@@ekl1?VOaKPnW=#)yI^dYyA~`O>N9q?x<g2Z+@8d78ZVcw9u7r
z<T)1=gwP$t@7g)Kppfo^AK1BnK|Wa=irpN%x}cN@?CId|3!0HH*w4Xfg)PViwmW!2
zVFd+&gB`rDu-F;~4p$o-M4MI}II5|O<BK9F8VfNFZc|iB@!$jp&nqgV#^4kOe_B*Q
z8Q@F@2Q@9DCg5BL_i0*4h2SCwuWVXQrQkAkKuwFO8MwKF6N*!)HMos~tBP}}1GuAu
z7Z(>%S8z86e^FdUy}(rt4l8L&eZYMk+_$8o*8uQ9wUJvh)a7Le^eKlfo`->lJ9P0p
z3Ow4Oi|29RryaU@o(P`gK=Dk|z|$T4XK5zQ1kZACR#`611<!Nv@Ulu`@L~t=D9f-c
zcks_@c@07@J2<wym|g+D>fj;eW%N3Dvx7I6H>IuMZR%xI^}PeUQ*CgX|5<&1fQ4NS
zU48Eb?{nzt`ylv`Ls#ENz(*aZz8#-|PpFNqzUKrCu77HKR$m_>&w8tw(L=007N{pp
zK7s!z!XpCJLS&#>gl9ss0{>BjcSWRIpf1Au2I?YwG(uwncdA*_7lPkv9ZXvh*%qkB
zOYec-57gtOec=6pdc5=r_(-50FP#LR3e=_dSKzM$b?JQ;d@fLz-amqW3e=_d74X$S
zU3%XH-wM>F_g(Oxfx7g5%&A!2fxvi)z@AQBdIx~5PF;EjgI!KtdWVA}R9uzbjli)^
zU3w=wAC=x22xmHV>75H!|IGid^e%>%ICbgW9NfaG=Sy9|-PCT?e5n_>%Bkl|eZl>l
zy7;aJ4|eMLQXP1xQ_q)1f=4;c`O-M2uD>U$qxx&UG#$$`oO-@A3p`uBLp5KT2cGZL
z1^801bpBm{uSQ^vx-p~XORs@9I&}fQ1-#X%3-F!bcb$5^v>Uv~spm@{fe$!!1%48I
z%Bkl|UxUAK>iN<I@b^w#f?ok&b?OrQCis>*KYz`a?!fP=-&ZC01MovNY58lu<Q}Bl
zBS@Fv-e8{~U4q-d_8?t?M}Q-PP=Y4`lY?{#o(;|k(j|B?xFkrI;FaKJLAnHQ4Q``0
zf0y7L5$Y7AOYk1xo<X_<e*)YmNSEM)z|}#z1g{0x1?due1bAeSF2NhX<J1wV`O>rC
zi9xyqp9Y>D^r!@%37-|DO7J|I2c93KuStu+OM>(@X*qaBkiI6Z2CoUy*Q5>LSJYcn
z4gE&&Cbjvyp?@n#H}vmdWrzAHbxC<2{DIp1|Cf{xv9LEtUs4W$4+iN=$|v9>LHd&N
zDfqJ>TvF&X`17Fc@qP0Ixdkh6S2ut9HCU{{|G0uQ!a{7Yc?HRZ<OS<12!GW-ntCBn
z6})Ibjb%`<zJ82HWI`~S_*vWM4%{M)4-nbKi+{@IhH57rfF2Cyh1ETcPr;vY>CXim
zKRB5F3;i-!T}2x6@WJ797Je>R?kg6ZjEj&<TyQa(J%%{x8uWTF#|+7$Kft%uF4Y~<
zd*J)Q`VOhZrP$4d2YLAXkYMtJd%5`GkVNtW`@1;psdTb~9WFV)RAlmeZ!do7DJO*@
z80KQ{%Ppx9IMyXI%S0$g)&x@$0?96(d$|K;fwR>sTy7-4D-$+LfeRNI+%9$J?`j-I
zDSn`g+h1{UKy3&$hqiF3i%ki&1Gjg{HRYl;e^481bVr~EXI^c_iFLt7UuZvGc(oA^
zsSBlQ=wO%JSRwLwcU?FQN1)!t=jxi!81Pt^EUpxf(<I1bm%8!<GY@sr4ES>{d7@H8
z@ux$B=mi8`bn%s;nU;kvbr}lgCc~U05nkrv&cjk^6?nCaXADa-)`K@Jx|YJeA35oD
z*k%{*sOHi($aa_P(_F;x<HKF_9s=*X<f`T(gcl7Dq7M<+>*BYDml=n_A9Km|Q1-8P
z(Q)Xf>SL(SGERd(=grq!^XB?MIs^UAC9k#+Wo(RaSblbK*oZQ^hWK?C4;WEm`~kkr
zJ~ty=we@2b*JRFd>pEiiU(YPv!{U7|zv)s#a38)mB9JU0D&!WTE>wwJIx>(v;a(xQ
zSjnklgu3H5(n|ga2877nt<<=8)5vfNM8FxsnYY^TlRea}nNfC%L@X*qUA}^N%dLDq
z+ryLRs(2FO$svn+CUC}YnS5_l4CNryBt*7uBL?&A(eXwJ0;L@M`w$Kt6JfN1w&pdz
zC(6zZ!i$HG2{bw))`>6vo)SD*zpd`IWB+<vJ+Ra>gg+URK~I4Dgz&>LO=%!_PzYCy
zEudO(T?kJd+tC;W9?coIi`c&*lqNu*3E_-}&H>ZF)755<M^<#(!JM@wkk>UhXeQ#b
zLU>n0M!;O~JpD5{_?ZuT#~F;+VxDp*k}JnKXgPF62=^J+lwJm}RY#;A7J3!@?+`s)
z-wb{uMBmNb2HqZ`2N1@)koWk;-E7(e{7{`|^{CJR@WBv0RzCth8luPQC%`8|^jQ5X
z@Yf-FtbP`JE(BwB;}ZBXpZ{MPT?1YZ!BE|}4Zgzz?v>De-~+Wsb&J+LRIx{>9zXbi
zeM8OhgB{`s)#HZ{aA>HWsYiojLiM;I6`U4ojvKNeIiY&oPyj9r)#HXTaCxX6H?#z|
z3f1F=_TUccmDRYRE4W*zIc}(e^bXbIh9|-OLosfs^jgwtoqmGzF?nXHdiJFTYqg=~
z^r0RyLLF{QkuetBAkPWW+jtf{QI=WMlTXvZGeXU&!z{?`P;=_A0J1PtPaT$mWhkZ&
z#!B!iIoVA#p>^Q(>KD||!FUa_QQpA9o8Y%X&7s44koQCN(BT01V5lCl9|Io`)kF3#
z!2b!wklpwO{H;tg)WG5g@Q<N-#%^4P+>rfAU1a_M-wxFihkM}rq2`F)5~jp0%)F!P
z4e<#x2M$(<EzBG^1VMts%z;BVBqGclI5dL9hM5D0BuH|Yc}F)Lk`cC3Ju*}z=t)@r
zu$^085dMN@z@7`+dGJLsK+tB`8(}hSu6hjg9mtL_IcctX#BLX4cbMEYSM;Vski%gz
ze4aXI#~{bUWUqOm(sDXXzBErg9`+4_--gK_=ZP+!KPdU@0ad5$HeUqNWh`F_llAjO
zDcykF43pdEixSJ7FnJUIf2fXqf%>40aJ5L`a{L03N4^lhaQV&x^*Ey);s}?Q7l?Kg
z1_=+B#S2AWiiaeG%a<35Y)fjm{CuH$NGu1zCgIY5k^0?2NKv?Kwn)9t3P@$R<VB*6
z+CtieOLrC>sSBiQxa`g9DXc0;?{K-C#XuSW85k}ti`9$QLh8b0_r+>&qakC$<%Y%T
zfG0qn376;9k6EUN%k(8`M=v1wVz{hdqR!qz$f9t$af#?jFF{s@OJk|}-F1-l>KK=b
zZnPQlMz~zHRGr*+AUncUwHzZor3&mtU|+cGDn%Fi1ac%?Zj$QIPC-tG%X?BC+Sib8
z!e#qq>OsKskPG2*?lRGuE<>(_%Ws#dqxc>2N4P9pu1?!M$o+6RX1RJ^*CRrS5g~Ui
zS8u}?;uj(BEmz0qgak#%o+|`X45U$nyuL!rr!+`<gna%bF`fz_g%Q$YrFx#T64ER}
zj$El88*C5h5Fvk9DaKGwNUsRlZ<TnF`a=e&y{!^6s17nTLO!!v9nL7o=m`1IYW04`
zLncH>_ciL=O@T~}kQHmx^LH~Lvm)f&HDWL=ge;1Xch{&7dnII5gsgj6bf#AzuSUpy
zkT)T3MM&3Lb#`__-i?q?LH0uSMaUg%MRWQDawI~Eb?PC;laNypvei0~xc%6fGC}T<
zD&i5z_OnYYwn*N1_JSi8p*XdfW3Q^JO6%OIYnl{;#E?bm!8ot;X_SZc{75c2e~+rb
zy(78&!YoU5Bp<o3nI<6gOyu@S-`m`17i4!NFZrnz9RweWRMluPNBtZ^pTSQ=a@o(F
z=u7Zdk-8jxd6yS|{Bt0kL+pH{E=lPU<Z>hzUd*HG;2V*u9*tpn(Mq@BDnFtoy$^n%
z?%JxS_S~WryGQAoH1AR{dBMG-xcj9<@&^Y*@$^e+h65ZZ=aq_lzN&sM3?3eZa@2?g
z$H|N`RbP#`98AgZ#!<Q&%?9U0scJOGC<GVD>t*VeY8kjZiaT7%rWW9qQK|xs;eTHV
zGup#D$kpYd4co4UP!D*|D9*b2xX};%q#RNq8ga3oCx39&W(-Dbh<vR=6=t?yoKz1V
z5v8h7mkg^Ep~hGQ8f4Q-@dQl<Pl-~MsOq+UanW<|e?_4ZZDM&bO7+1`ZuM&rEkt}#
z)L#uT1)J4e#lY&n${vaJWl?5j3SJ$>M}Jj!{=pm63B6WIuY)&7p)QT&>T4mi4T0@Z
zW^MY)HC3A;@P3q8o1VEANFO4wH%ir}DI9w}kPgE?j^fhm*>oKIX_P8XLwLdUAUX~I
zJc{4A-j~jRzl&nqjVI_L_)?UrPE&c!jX=5%zY(P>)Fi%eBbIK%??kch&2+jCeh{Tv
z=Ul@rTCuyVXeA<e`OQef3+^qawGz2T0N5&bwGuA2-U=ZnJSbY#po1t193A~v?b(%*
z;f<rsnzM`11ez;bwGl)3>TmH>3NMRh*YDG)HMmVQzx;b8bpm&e=1ad9QBQEMXm0#R
z8ubD9jaEfvET2%1YtH<`MuQNmj#kBG4DbEJNp<j{(W<~~!q(d%#%TB$d83`Ws67LI
zHd<Afg}nc^i>AY8MDzLE88iz#JDP*<WY9eD{AliQCzTe1m#F>S$)pwFm!fq!xfZ-m
z9g8X_{|$aET9=b=fZvSP<>Yqo+tKFztoI=AN1G1^ehAsCPMRtx4}uRx>w@wq_*k?q
zC{Kb<MeBm{Yw$PGx}ZD<J|C^0)3^-25^X-GaUF6aT0f_82Yff$d`{y5<e}QDDk?o<
z6dN(RsPqN<#h68<0}>dci^@=NSd1<zW5A7KP*fUe;B?u)n`mm}fSbs*-BeO91Q)5B
zx$4=#a&SeAt|?oATgT{{vIDrIdSO*lb^~{hF>A`+kjG<CQyTrj1LT?>qMmBObunfQ
zIRY|L9i4hsqX9fF#(Y*|B4kpG`K-na$a6~Ytj27}3o&LDxe&4_Mpuy%yevlFyIKWa
z9b?|RS`XQvegpTeHbOSV=zCXhfw!nv#J#KcAs@u(GV&n!P>e1kkApvr(PiX+!2gZW
z&uV-NJ`-c!z4{UIQ;hkn#tq2L81q?;+mJgkx{$mNeh_08l5UNZxHr;;q~QZmkKgoF
z-)69Z?TySjG8p1&WY&=pkjO^5jx=H+aq@a!QDh{88_UdoqJ%QQnT_;wfjduli4;No
z5gO14<61FHX7m>w^mBnU8SyEN%vsAq$f8F7nAUDb<n2a!TDzx_p0=Du=<`OH*4`9k
zk5%S~m9<v&z`F|)5-T@b)n85|Bq~<kvZ}%{4iX<L3v8l2HHM_b$`@^-2W3LCV&%^^
z(TDOO1+lWNUG%b)#LD${RWdb0uz9Tf#V$JfwSlx%n>o%C+vF;T2$cgJs!Z&Jc;{Ft
z9jX}Y0qGeluR7E|pMdm<m7M}r88HAdFjnpjR4@G$q$XB|J5?!F4;c|FCpbkbYJiN3
zm4}_8*z#<w^axVNF&)7fYDYn$xz{YnY_*ZYgGFO`C`f(NXC7knW2Jkr=tYYmOJe1~
zU{OmeA**8LsbJBc)<M?C%0id=v5k;T>bPC1;@JY(8Y|sG)SK7|c{f&8g{arw1Nksk
zt_x8o^8n<aI%QZn3ON=lvqIGea1wGVR*r@I7xHDS+!?CAP;&<IU97wtDw<h-h?S*b
zs>-~A;MG_;FHBWSHy}4-<(V*b0`5TW#>$j%RlGfbJXCuPS7oY4oDw5W9tu~-=nL_S
zlVK5}9|c03adK*edagGd5)miQMyPWe2Z@i9#gS@ElmbbOldB?C@s<tAiIcxYs*<w^
z(lkzvi4w!80#X?#e~MByd}~OXIN2#$eTJPOUE<{4Xfc9%L8{_pUX1uR^@j|IlRw0W
z=cxu#8z)CK5{qagWK^8=j#dB6$3rH>Nsd*I2~C4ckCO>;YUKsUi*fR;IQ4!OK{!qZ
z#)}&33dl=pGbi}OiW7UH<=S}RkZa=A=~;`Vb#d}yym*E-LN>+8+647^ZiQ@%lV3pI
zgS;OnD-y*L+6UPmC(l4WfgFjG6OzOWbP{q(9ci+dKwm+=j*~AWi?(zYaxPAOldKx2
zpCK3HWLaai@(bkGIJuy)I={Cdzs1QLja4Od7xHJE?3N-1k%(7fiI=-mR5wEq&v<z!
zMRcM7h&5hzOjX5x5F|KWzL%<wAOaE@FALLDgAfl%h?k#1(je*aa&Wp>MtP9@c<G*@
zzKK>0DT$X=8KO-<C8U|!%yB>Q(uueABWSG=YZI?0)*Zo};`PM38@PMCo>*6bd&ldE
zbwBWv@p@uC2wbf;e^0Dy<MqUP1Xf0>pHdU+vET-^`Tr-@6R_}1yq;K322Y9C6YCk^
z=i>FmdKP$gyuJxG7d%gG{<;Y^X5;|<EgrcyM>MA0SltsZZ{&z2mLu_URugf7zD4j%
zyd0IQzJqiPay?##=ZSk{OHg7@kWu+!mL(!VZp;^(DI39@gq?i~glZHTVB->0qmU#2
z-Bk78lM$Gb@Tgmu1)rUuyM=||MG5E@<mzH|Q*Jo|D-z6BVI5?Bf@&3_WL}8~qKyb_
zN>KfR>f}m<!?H!~R`m)y5Z{@gdxc%#-3j`OsD7pDD}nnF_$Wc9mWm`g4EZ=gK2fTY
z)G^5M1dOmd(C3gZ67=Z$Tkx3#jIOij0_6Jy-6&iEUrqRXY<)8UW9t;UgN3^Zs#6G-
zMdc!t9w6{g%`??M;3?(mYnUF1DqtjHYTcjwApwbK7AP3(N|aAksH<EgBq|ZZ>TZ+>
zNlJXwB2XFv>51mFIv-Myh-tNayHYr*1cA~-vq@;4sHW6mx=Cn<c>6>&39@@L5lmeW
z=$fdyf?zqjnL4k%5U5I&uQpR>r7xskqUsGA>$&w{_>e?%ZaoY#JQ2M?5siV2O+;Ui
zP7@%{B&wbuQQlQUY?_9^bTu-*9wM__s8cc%fmw;@4CJsD>VW4WFfUQJ1`@n15rgaQ
zv=*{1QS}DtvZ1B0(MAL|C89Zy@3d4$yaj=+iMl)30p6L28*4IBwFR^bf!&E}U>z>|
zA+R5Tj}q0yx(R&@{v;8D>J0i6@>!y85WWO|mH3b0v>~^&R)4@3u<(7N*(s#Th&CdQ
zenITlM2x3r({0F|MEPYKF_lD;5=)Y577}=6FZC6Qw!%T42zn*yt|0(yO_CSes<Y;V
z1SO$ukmc>vXA_P<L=t)iIi;QY^NmFyF6sZ821<daCUNHNu9O3AlBAl35;?2Aa0E0(
zpjd76Y+8L+eNCX;gM|t#RO*H7=(Y`Pa|O!Z)B?4_LhB^y-$8x!9UvXmYuyQwRUOoq
zxVs_HJxO;JkAt63hpM`Y{@?*gx~muhekw_K6~n;8lgzGSG-OPY*;R~(Oi+idx{Ar*
zDM`Akcn<upB;8fK0Ddt^cNGj?oTR&o<=_=bx~o_Z-jHN=6&oR&l5|(G6}&CU>?(Fb
z-c@^5UBw>ohe^7tI0!zJWOfzDAjgw*S8*Erd6Mobz6O7jq({|1fqzaiN7Yv$za;5V
z^-b`tB;8ir1^=0(+lt4M6^mruRv2JP)@_9^*e}^^E9?+QvL023fJ2kbC*vAHVw26j
zA_<b5tow>|a7MD(SL8zSlFh!N7*e7HeMKdtS+dzzw1u=w)_p~1aF=A=SM&t;N;dn7
zK9IiZH_%rMgbYg7eMJqpR=pzniZPI}$-1wY44#s#`-<nmGm~{+F(14jS@#u7z)O?O
zzG5|GO|scnY=XR=Z1xpfAX}4lU$FzcGuiAbc0qP0n*-_tkb}wQfcgmJXtLQ@oPeB6
nHXDooK>nL-4yeC{oJlqZ)E6M%Cz}K6i;zpnXf2$UhV=gjS!-Hw

delta 16781
zcmYM5cVHA%*N45E-972qB)dsAeM2fqNFzM~5}K6IdvC!IdI#xMfl$H)E{IYD8zQ|*
zS5Tx0qM)FF2#A0PDqsQq&hHMN@B7ER&vT~i%xs)fcDQlW`rxQFVybzm?FI1y{x@k!
zVwF$%ke7Ovj~i7!WaNM`<y)hi!tB#>P(N8BYJ{|Gx1`Ezz>s01M>QHyKB(WwCEb@K
zR-{#A$dZnoOclj)Rmaulik20v<k}f?%oTkq`pR_6NAmT~VdjdN6|>}#&Miz83uX1E
z)#i%z6>rJSU4AoH9I80HePdT8%oTrC{4JwS6qAWhrqWHw>h7iF3HB0l<B1Xq00#<H
zHdWM=ktf3_6oD`y>zyp67;p_C{pY4oA~;FN{U?*D7C24Fv)SoX8=NiV2XphO5L_hW
z&vWyr6kK1(lzI8o1l&}}LG$WRD{yNex6W%$oxq)ioOrsFdVzZjSyq)u<>3AtuS%tX
z;6Xxesme5s5VG5uWEzLicp(>@NvFx+DMC)U6EE+c38q=_*?gVzo6~&o0^aBIYFY_?
zoe#Mnk=B6M3fa1E7QGFAN67AHo6-m1O+s!un`+$--XW*hQfM#mLm^*ZSkrWfZ_K%x
zrei{`E(nra`UTTTtUV><nsX_14*Z3XqCA-{g1;7W{-S)k3ce=f=|x5KBlxzEw(8FG
z5d5o<!>a4ipWwfQoEi`*%g#IL1rxh4$-(E-$O<NtJl8*syum&u*?aL+3I&ImWUnvF
zs0KLJB#UGzC4*B;@)^f#gR@Pt^;h+&5L{$Z*XD{~d95OfN)RaJ11u?|#^4uCYE6y^
zmj{<PsSJS@CV6E^2DJsZGsy)Pil_^?E1%7Uanv9Dl1a9@IGTooN0{WPi&JR=c%n&8
z8#s<;foGc*56Y%_z$%mU{U*&?4PGo$g40L=mz$(mo<pm^t4*@b@>E(6e#<29d{aal
z!5^4p>ZJ_Y2HtLxKQB+CJ>b12x$;sP9RwfZGh;pqK4y{&SESGh@JW*_xSURB!RJhJ
z_+^LmeJz?U!oTLvYnVshfv=e4q=p6b1NeqXb{+a6-2va_TT?7j=>g;+-<F{{^ceia
zB*TU^rGLQxniPNi`DAuuvAC%cDT>Jx;^ihE4C_FFV7r?v8=g;2aHyM{KfFEF0LQwi
z$xB2EB|&PssjW*yBg%kex~YGbh$6~`<neKrih5KBQrAspG^s}o!HwM1=UCAkQsyS7
zjjU&F3vMSxRH!UmokCrpUESo6)itRnxR;w+yG$&mfsjFNYHFz{py7}aZt6&>s7qrZ
z<5(0QdNO2+o7~zgk7j{q^K~^Vpn2dbK9}ZosT#c4O`TaT>XU*jcauk&ccE3_)o$ug
z12Ne84&+@~9aE1!0B+))*A>uq@D4Y5b!;<vV4c6mhwy#8kkvKf=@9I&o9fv}q*#wZ
zK9LV<G@#SKGj39hFQW6{FWppBW06VUKrXq-N#nEVD)^e4d>ETaH^H~~+&O+1e9uj}
z+{AQx40*yEwHiyp%xp5tj0sK21MF#*hg%Pz0C1pLrnkwW5U|s%j;s>X$OVZptA$O4
zk|*D_Q7Qtp%<}rXd6WgNZI-V0vMC>2U{+h3i43{my#SB82-M?+N+%IV4WJFps$O%x
z&ZdxN@?26XwF0&_t6pnGGIfA-G|RyoGN>E4yII-F_^+=Iq_0`t+|ZaRzyr)O>-~B(
z7(B!*Uw*%sMu10}<w1^*1&=dJ%f@7niQq}RkcZl*Tc^RM%ZD`s<@AlU=@sa!W_e&^
z4po8Yo8?~{)2JG}m~Y4jX|xQi%(6f8O7QDu`8x9&@LIF{g841*+h*y$DTg+I-#5#K
zn=)uKc#Bz1+SH78fOneZ=bN%<FZe^V^w?ZL2f>HTvgzh*`WSrFEN5@dqT}Gt_zT*c
zPp83W%!{|=(igz<W?5%THeCdN&DYQTE%-aL+{OGo__|sCx}|__fq&%twY3@D1>ZBv
zSzGgL55Nz3Q9ioLtzAh2d1#MAUf&u_kFesgdGWS9`V08CS=QawjQ$0`V3F0^a>;CA
zwpirn+p@?5>}io6+e^t8>}Qc}wzr}{u-zix+nz@uV5ddi-kwAe;7E%M+0lezz%?wg
zVn-$=fD<ip?T#`^0jFBzqaE3l0nW6@jGeV82b^n>{dXo)A-KpQm+#D_df*a^ys$Hq
z8iE^Hq~ESO)D+yzBHQgMrk3DVy#20hY6os_kzejgwsi(~;f1~rZA;`dz7MgxowgoW
z(eu9*rBd*UKD)!HFIM!k$eFvdr~*8|A`dbT1`n~wKX&KS2=GXY%-fSsW5MGra@?L=
znh2g`k-PR}+opl1^TPP#7WxBhd&6wAvEr5gR<w~N{K>8MI%ytOR9WP(z4^2VTy2qC
z_U6)3@G^_Mzqby(23~2ASs&J?)!;Q2IqAcOv>yDHMSk{S3B3p2V3Gd&ifo&}n|Xn=
zXwtY$4&5IjNAHWE?O3tHB3JCILwmq`E%M5~d^!L=XpxcoOXwr;$NYutuS=hTk6Yx%
z{rPkXeA*)K?XO4Yz+dnQ9Vns;;ENVH=0GxC27haj?;gmeYvAuK^2UJzx(U8zk#Ps>
z(jD+!iyU~ckbVI_u*eS%w($5J{D>EF$mBTs6ZV%yrXR|of59(U<={i9WVSL}ta9z4
zO!5GGT2-%6B8U7SHmjUAC57x@hgCK`oKB(OFpeM2rf9IsDi0hkrFd|HRa%dvnNqAW
z_eeHnB9vv7BaakO9ys4BcO9uqb-;D4^68O6Y5;C%l^NfqQ4?@es~S35q)`h<ORIc?
zSF{DUv&w59rBNqvXRGob!y9#n^svghSJDFefcx^IeDvs7mQ?w1`MrJG6)t(hJBHI@
ztdzWA$F8PTR{46zH)#t(TdnH*mZHkzW5`inJTJ7v=_Vq#tnyIj)}{wmx$x5^WFZb&
zNq*2}%=R_M#|UbGKtqxdC+bpja2e@hyB)Ya>0-MZxI6u?*zSiwIq7115O^@@VtWL5
zB<W&%9C$qGVtX=p3V$jW+q1y4Nf+By;Q6GBZ3$jNy4ZdVypnXW{U&%F>0)~W_<hpF
z_Ga)Fj&rfS6TFLbvAv&kvHcN3ACoS&kApv>|BCI;;b-|ex!Ar4{+jpUV*4ie79Wy}
z?K|MRq>Jqb;D>}_TmIC{OKv-xM9&cWhvZaSGP$`ko85J#?cuH~Z9n(_Ds2bW2D$4>
zI}9A|t}AU9IL2L9+DYJ=?z+;>0B5@EO1ltT<gP32`rroc|5e&e;mzE2rQHhL+Fe)L
z9l#ykb*0@8T<)$b?ZMz7?z++*4IbmJEA7ePDek(`o&}!m{=Z6l9s*T-0IsyF!HeDh
zS7|E*mb>dp`wj3acU@_(2fxK<!<F_H@K$$SY3~E?ch{BnG4Lnuy3+m}eAXS6_E*3Q
z?x?isGWc6}nHpS+z6W3D8^@*gZSYU-y41c8{>5FF+K<6cczZ6jpMsyc>r&g~!R+Rt
zOKo?shleh;eZhVny41FV9Ui*W4h4sKaH*X`E^v&8e&!^A6Fu}ZCk349p`SS!;7kwW
znUf32^U%+nB5<*XIy*`vn@T<8_fxXzMZ}tT=!ZoaxP^!DuxJBm>!BYO9l@PE^uwYX
zxVwk(u;>lx<AH|-^#{M?v3>NF9O1PLqIgjiu&jo#%M(|-i*<5k$91$5Yj$}U&xqrY
z&v>Dq5lPph=?)@yJ!Grv72>h<@3NG<JUQa+iARK7b39=CcRy?q)B?elo~mpL7k<ZX
zI;bN8ojm3DH#<;oa34?QN*1|t^sQj3L|`CqJyoR1k2o*_fsvl_+O3u}0X)%DJ(wz@
zWcwc-G#!B%o^tq)88inx*Hb?=7J?V?PCsVSQt&d*WvSfcW#0~@mGIX+Wy{+Mv<AG^
zQ%<^Fi{1ji?WvZhigbB(o`<}9+d&^7xXDx9OXa>~CuEnWZ1+<J?E~-kR3$S+86AZj
z<B$6(%XHFHI__{|jL;XJDlLs0&z^UjbP<8CJ^4veOjp2HJ=ObZ;zj9ow+8))z->=;
zb*3nlWA6sj0|Xv=s(Q0T4Y}uT2t7gI4^MgVZX0^Ri&=Qd^n10*3MMZ(@Lm_Pf&IPs
z!4fQgxaXiCc(9lJ_g*$dfFr%s)!8CUez(wJiuK~hOt75!vx914U9y*4^K%NNgEPF;
zlvjjP-uu~3ISAx>NxILe3tZPrmfg>$hTukCa?bsHY7Q>*lAqmAqc-5S{Gq&k7jRcE
z6<wPT*5j8D>V-gWFFEO#4C)Vl$xHQ~BO1%6zu0|;Auya5Rc>V?1}c#)@??hxfu@)F
z0CPnxx#EF8O~*DfyyVsg#WV*z*Gt{c7U9kTLq;yCNUw5hGj#BhicB6TRW8KpMPC2^
zK=P8!AKGatg3G-4p_CvOu&;!_?qxifjy(*fwFtcFC4YFBMel&$^^y_4_M@%fZC?Cf
z3X-dSZB6^&`@Q(#6feVnYfYcPKlM_s`J!BY^III9Mc|y5+KNEs?-6tffy-WU!SD6y
zd+>EHHFbfg8C<SUyxo9N&rkd|R{rFrjw}#CGVPI*?j!Jvm#SC5e+(lYh0r4e9(&2^
zM|t!V{LD+9ebj=?-pm$nb#kG|mpvYbk~acA-g3(0R(^J{gBMknjOeE2^4ws%{Pl4l
zg(4p2Exn(l`9*_WdYde4<99ih;t@;mmZP7fQwliMTW)+(NLk?8-g=CX4=(W5V}!ck
zdfxJ2!#dOu+{oJ)BQ%3F_f`uQiwtTFY2z)2HmXe>!JWK~IYM_x4{u|R&==CrTh9>&
zfd_l*Il>6=NN+tym<XQaZOjp-LuPmzbA-8&dEUkxVG*R7kBf1Ef-LvebA(mk)!urJ
zV0{bnwwyY$gf;>{@K)WI@jzocWQVsgI5-43>}?DVjzK>0HU<YLA*Wa{IQRl`-W!7h
z>o?#_a_i_qx(d9;pUrcFo8VjC#@yg8<es;l8~h6X&0Eh6=x@kV@1-qyG$DMLO+I>X
zKwx(t9vpNcU$CE#tTV1IIlw_adSpOhkZ>RQutt5V0gm<2GlL{>O&?=skOoQj(KCZ=
za1QUlGlN2Kk&m7klz>ZpjF~}mNEvU$GlP!cPJBu{Gw2EK<)dc?72p9rdS);LJk-aS
z8H|OD^TEtuy>$j;rtC2(o8|!L`si`NLhvFVj0=irDP)<CvXN*=Z$MW0=s^LkgRJL6
z5f72xgKY3IMg^N8TYU7WU?+GN?~hTzKFEF_)vAn-d<625kJ{`mg0_2iND=faBER|Q
zTKOLzT`SvsIppta<iQ${SYG^BD>p=>k*}_mTlwl*xg4SXzMKdj(^T*@-|ZW^z9wiN
zWWTSjnLh>}_0=`=N$@FOT{E8tf9d<bn)xyU-}<6vw*COVA#HP0=_lYFUtKc)0)F6&
z<Y#>Zek?c6EwDZXK9l#jcy{w+H2dj-*%R#Lrwe9(aDbmKn4REIKV2}pz%hQhV2%eT
zaGVR~6mY7aE||0YbitgDP=TK=nCpV;`TbWgH-b0z(*<)2a7*6j^J;51aCbRjK@#-_
z_VLs8@=M?fKRuit0v_sz;WUi`kM={&Y<(F#L9SewY?|t)OXk^r|CP*DSUKNMm&}X7
z(hnuGbvby2tXfoHT?1SzPc168z6*R$`c-$aZUb(YL#s>ZL*PFCu;+v6Bk+&>bh-Q~
z__!a+W$S718QE*`G`bA@)(_RP^#=H+ER^->9`I*BT`WHWKjzEivGh~$Gr#}OO;KdB
zalp-{i)DAPhwXpGvM&ODHeD>+!48`)mczi|HeD<yfD>)HSk44z*>tg71TMDeV!08x
zu?@v?b6}ZG7t3wHZEYx)t)0M~7cbAX_5}5k#mj41%Ypsn@a4rc7&wHty_8`c2_7Zy
zEl;QMz?W^hPM!ju%4c;c%{mJ_TP|3UYMlqHl1El#P&II|?Z1Kaa`+0H&LpeAt8F@y
ztOvhk(*x=E!5jIeU?9B}vW;&D52Sa4_t^A6`VjcA%}6B2AfMQbL~;^x%BB;^m*B5#
zI+0ugU$*H)aszzRW+ak3kh?Y`k^Bnz&1NK$KOledagj*=g}mUe6N%NInf#4`v=7AB
z9|LK!gB|`xCJBRt`x}`g0g~u%WRg@!Eq^1EWI<}PAd?h83jOs6x&&P6uSd|0!7uWs
zb1EqVx9~SoNn1!ef1OIYfV=t|siZHYpFdKGbpW_hrmris4h0UA!`C%ehh7stGzLD_
zUuTm^;K}|*HkkpL>94cNJaCo2&L-91#r{S%QIO^SI-9%!Ud20bHdzN=&!^54==Z=I
z{Ecj~1G1Ah;%ssVe3-9kLR0If;Nw!fQ)xX5JST_0Q=2XTFY>Ly{P`;6n!nB^bQf~Z
zU-q0-+xigvtBigxhn@ic@HcYFGsr*wI+yra0$8lPs4_R`*SA7WyBtqmh<OL-zRe#T
z5TN_EAaHPi?%Tq^;Q_jDlgBst$XBMsQ#^tR0Y=Z35}<pwOvJJRbkCLx&I>SlwjxMz
zfbQ8!z@-7YXKMs*9ANZp%^=MK^nj-oxHT`H4|w{G9%T%8f>Y9HDppPlkYy=LP4fff
zjg;%O8lg1-@^tEY+6LYpAjj2uN?(G%3Xl`hUNv0{ke2j~^a!EH0o(Va+uSHGkR?A*
zexB8sO2DOoIzu%9Hw~2iYd7_618&QUDz_GcN2saE{7dTX+IH%Kc-KJbmfe#2g8K!^
z&e<6>09?t($<Cu;;NgL~O&bFq8>ri~iQq|rvR+OWO$W~ilrQHb(<|Ut1Lek?RH_2c
z=k0THX)#y^%E;VWv>d!5P;T-`pf|v)0_8N0uLG|S)VXRypuCftLR%2p8Ym<3(rFiX
zcc5&?ydQiZP|nNCp^w2w1Lg6&Tsi?h87Qs!wdgGPT%at>&!!9Di-B@%ekpwiz7i-8
z=NHfo@XbIe3To3`@V!7;R8Y(GFi;LE$T0m8$eAjY{=u4m1LgUGRFl~*hx#Xzr=3Gy
zcDdF+g=}DdJNH>Nly8s-pkM?->~dXUE=7W)?DG4<Jc<Ly+huf7TS^0`+vUqeg_Hx%
zwafiQ4XF;eu3fqpx1h%07wxipacyb=ZfTdxi?gXcxPx7OS=@xWgL~LzY@KFQ4(@N4
zW9k&sATaj~AJ)mG5#W(_`A3~h8V4S4ml<`lX$p9%T@J3BNwdJS?eguq{b(V0kzM-N
zn?SFDSK6hlw}94z-?GcZlG(HgyxA^ymT;#H-es4j(qh^VK46!PN^8@{;G=dqtu&ub
zfKS@xk<u1)9{i<U2GuX6%iwSAvS<Bbx(@z<?_2%4^b`1wUH-(|JODqm%ghF)^aT8e
zT~26FNdJKUwaWtya>?RgwmRhB4T{Jc?BmcGDgYel&>1QO>~!c}ClVaxFfvpuB+g;<
zIyE854&CddgEJgPipqiHI*b%m1Sxjt6x9&i$e~kIGjMZ<PEqZ_9UMlA>I&)RFj7=s
zNI!>>q6R=J`M5|?!yv;QIz^2Ik8>C)YBFSsL#L=&;Moo%MO8uOJB$>y9J0b;q^MPp
z)ea*?t%tnDf)w>WWTQi;sBPfwd?oxV=^pT2{&Y@J2f>FNMv6KLIp)wQ>LmD-!$?tI
zLcVh7Zs!u1f40WYq}RaTJ9M}6BltFdAKdNS2mj(Q^3(5-M-H8zo`Rn_bbc}gF}npB
z`N<vP5v22zFW4_g=O;VZ5v21|C^#(0$WL*Qc;1NfQ#v>!NOwDV;QS!n?UaB^gLJpk
z82n<8k)c{aS_c^!svD$x5Hb|?0rw5k?M?-FK#-B5hCqe}8STy($k-sG-I)lP#K%Ir
zGaWJ`$Y^(7h0F=k?al)5Lf#+k&JxJdAfw%R4YD#ww>!HxyF?v9ClNXoq<)VPOHE$~
zsd+WTb-IJ#-5@n8R;;IIkbn5z#fhgB70ePHtYYHDtES{&wJ~07q<RRJ1n=&dApG5E
z25e?927Xy;Lrr0~Rv|K9Ub|VWE>00nS_W6anEJJ()sQv3Io`*)TH8ZyNakJMLG)dD
z^;Rp|0^Ay`r+%s+MFd-SBeF*h`!Pn1PZ2gc2tO38yPu=rWAf^cS#$z;GMFcSX>=BR
zE?DKHiUj%!av@mtOXXtn66A6)=6+>#9r8o4G4Hzrxf`tVYw-adKpqAg1HV5ZfAJe7
zKgFn<wS+&t5W)cwqMp^_U#YDS3c>6z)9MZJk(2Mls5xmOi~`~I5X}C1Q#d3d1arSG
z6bFe9!OYJks}{JcH`0Z_H3iXBdEsuZx|=Q{tl97!nRd^q5;8=nwGdt;EAMrshQLN4
z+$065Lm48(+6;l_@}GOr>RE<xnA(JJyW~)R%@#q_3F|tCJa3#R$QYlM^y&9}3e^Ma
zd&<>6r&2#)c?f2LLF(g7;j~sFGEiFYCo7*U{<cQIN6O~+qg10TUOyiGvV8S^oSK^@
z95fX^EkwPYB~q=kA+N}P?x!eAZDFSc@P#3m5@uSLK$gmhzl5qS!NRP@)aLZ}8iFfB
zFe>a$>mhH2sNZUfuCy7lh4-B+Qq;6;K9${w?2%g@B&nm>q6Qs=9}2;guofMK91GEX
zmnz5+k#qu)lOf!Ag{uh&oJHVV2)ZvWH6a&6)a4wJPTxYl3*m8K6V)|Wgwibpehhg&
z6U<eg<?{FY0KtbL&j*9)>We%PsJ!P3U-}zso`&cVp*oYt?>tzX9I-m}j8OH=7vWYv
zM7SOKJwaWI5LUG*pTDXg1cRNJ78XzhB+{v;gDR##1XB$}Vx1Td7Enz{vQtef5INQi
zNT&S!QMP)2A^&%m4=-?HKG?=u0x6Y~9~Y?gg(8HSz?(YN$A$dY-V)Nvss4nthjehN
zv?6}$bcJ+tsy;;`-P#+{N5220h$?^soH|7g0S|TR6gdh!+No3I%isx4BSlVyOmiA3
zayH}@r%sVo;Q3A?MJ|R&r;#F;LsmF-id+kR)2UPBJK%SnIz?^;Z*v+cayMiT-(b8}
zbO>_TX{5+wkWcuyNRg)?r=2=Qo(F&FG*aXx$YrNak>7)_JB<{18}gIWNRhuo9`W~s
z7m5CY{LSAFUL<-UltqLZDUu-Wp*ltSg8f2uinN0rp`0SqqL(&*Q@=v_0?)E7twuC0
zAMyM@$53n(7HZ_qXoxEmxzm~ePL${VtuK4UBwN#=8B1I6RpkJ4`M8`si@?R9I(gOy
zHwe|qvnjY)sF6HdL0X6E<k<<_IaDXl9^js#M)K?jDG$}jvl2Xzci`r37<f2e(fBOu
z81PsX?Ivc>H1KrZhI3~Xcs`#IPYRcSmxk)x`387ZsLq}1!0Y*zp}X4%`5@HDoqHgA
zLv`*v2tE|5bLUa;u}~v-o`9STHFD<{kn^EN?))0^4Ic}+^9tl@sF6EwKyHTW+<6Cl
zm-k2Rd;obEYUIwxkSC!=?tHIIBnwIi<4|Ilo)u<==~-bzgc^kzv%*f0&b;_<R`@a^
z6T<YYa8{U}6~2bh%CP6ZtM?QtvYm*aZxFo{rb^rKl=3R%T9}&Ej=$EMkXvEuR69|J
z?n3T`DgXAOIX#5@8m9WS7wzc@<c~0QxV`8`|3Ll?Q#Cq>jwW-sn%F_q_wfwppcgNy
z9A~#ES4U1?H#+ch&W5;uxC-kiT2K%qI9v^5@d<}S7<=q6_V}TrsN)lZcn!pB@R3$`
z67i~CCqBDG#FN6+icWk&wIFHX>QN`rfwCbv;i^q%(U^)L#o=mAXHjG-4Odq>^ILRH
z5NsN*61#{79xWlQc%d3~6*blBE+UuOBi12Yeb+^Fq^^)|;i|B!7(jg?{leAzT}3Y%
z0I3XD0o{1BVUXc`HQhuxjfIR0SKoHy>zoXk60S13^JmY3%;tp9oiAb@q$*q;#+t<t
z8Lm8g@Yk{&vLalSK~_OlhpR<BL?Nw*ycMp#=ppKx-Vay7Jw+4RhT!&a^-@pqBJF|f
z4OhE*@(nlyIUKIcy+kP;gM7kA?IoJgDah$?wYnFd<9W!J;p+EZq6b}ud>gJh_ZFS#
z2gr?ZwWl}V+q;l^;mXm6i;7<%zlEzYeMBqz6Y^KMI^9Q%BN4%3icrn_ib3QK@rY1|
z`ief}2eCz{#D1cZf*~OhYDGUWlp-Nf5z4Pzyh90)#0YhuT+F64NP2{7+FvZDTu5Go
z`k_C+URW1WFG3A^NmS8`kR}o8-<NnzYe<_2^=buQPiIJ%2=#M?sG#1EJ`t+h0A5o8
z84#h43=l8VFv#!-Ra(j4;5f+m2(<|^6*4VCg$@);eO`sk;YC%=v)fekK&}pM4-|cU
z79n13#J3|}Q%xVlw`n=zEBK5DiSe`svNl5X9W0vC+mLr6)Q-WTyU!-bW?obUp53m7
z4iUjBdkEK%I}qO)p#}`$V|@tO7okoJ;R59_<Vb`{87lhHamZ&8YS~b(EzUqbk5K1^
zauIw1axp?B3={q6JIIv?wRjkx%niuR2o*3~ETnsopCi<}kl!JXB2=9bVmUp7{1c(R
z8^KkqTO^A)Qe}+fKRXYIXQY}ok_#X|h%HhNw;bT0NIl#N1&2lI;Z_tlI?{M4Ar2BB
zsb5N{2~LhQ23+Zpdcc)~SZ<^qa20}!B8>r8JxEEU9&j}TH;U8)uBPB-k;Z_lC8SlP
zekq|HxP9dANn=DKK{H{qBGrkp+?G^Fs@~(cEm?=)`bgDuJhvsgAiE>gqw(C9d=2>~
zQvLC=c-7|yOO;QjPMuQQwknaf^pVRZ@}>WYP5z49ojnmvN>LPBaTJ=A#?%nfD2m@m
zC^8z9mI$<pG8&Xlkj}j6R4yWVL3&5&*AWJQE2GeuWYaLn@F;#2Awo5oCIU@kqx6hx
z65^A22YwY{26$!^&$vR=t!Z3y%|T#pl(I}0iL?N+FiO>)&VNx7vLs4XOc!O=m5|rf
z-Bdo;b>Q_;%3}uqiuxX8LzK~!Y=dm)Px>iK>{U-|@q4s~5IU@CrSY>pa3+_m#}N1=
zihrJoRh?#XrG5&5(`rMSXrd0!<Wu?zfeTSaOL7HrH3}_BA>D-BisDxga@3w#oTKg|
z@JkfGhY+HB5&9j0M^XA^gnz*QM&V@yHGeku0On{8SfcrDgeapM@ruUV2pJTB6@k&{
zL{#c4T+oIf;Ed+?5rS18?l~wDfv9LSAgL4!iHp`RB&2{-qxB03S>W2y{6d0Db$FGl
z-2wy(qt%#K`P;7tDdA7QpP;_L+7}UM60P4&P+oKR-n2lZWi-E>;8YFg@ENy5pnbG%
zJA8XUdh+7Gw-d^!0<i&njJaIv4TB7i=2sIE)q=Tv)?*PE7j1MNlOU6$(RtLS8IYOL
zy6MQB$4%WF1m>#MIsAvT5WFZ_Et@COtV<!wlz%Qi7FL7TL_cpgiq)JdZl2yla6|O-
zb|XbSt`f1d1Hqlq=rrcgLCB$KG#OK^$047oY55{S^;p2|%I652jW&9V3y_P^=q+kl
zzlD6K>K5=bGHN0BxIZ9pBbwhjaH&oU`A_8z0(YbN)q~o)zp(y_z;DXGP_(7Lz<)>c
zs|UrZ_aYHUCKm_XTx!B1ZYkU$9xk;N;tTO}sUH{d*K3D3Tq>-Z|1?4&VJ`i?feRet
z(hWueIMJmWj8t$fmu@h!z_ndQgOLv@a2X9oT}VBbZZH~x8@Y@IqZy>R%V;oKL)y4>
zgV6=t)ukJZUf|v?-C$IL2fB;~V;E#OUk4hDaggyYqrsRAnZn0KgE0#-+oc<fD)4-l
z(O^i(5|?f;UIVXm84bo-$eS+RU|2tZY*JH7MWJ;&c!xS%%7@(x{?KK#7l$E7T)MsZ
z6nvbogC}sO!Dslhc>;GH{H4q2BEErKa_KJO8u)v4uz?stKY{PK^Z@P`@B`kNdx%Hi
z$1dGNJOw}FFM|hgZZXW}7^8>qfOy8}9>O0S5TkpDU~ou`(L+Q)B4cz9Q3D*yJ8%z?
z1g;sQ2XJZN^cZ6RR{$yGjkt+u2yPUkn}{-Six}NRbO3jZ(M?1*aQ7Iai71Ekk1?8v
z;gAtAx``MI9v7pVh)LkdF-8+H12Qv4Hxbr(kSbNTIsb81gBSCm&_gK5@))CscmuL3
z20esz9eBO+D-#9Q_rM!e%QAk6WHWe6jP4++{le8rm-ww_K!e^Rqe}*jDvxegK5|s=
z!R15vJ)ra|Q%Sq$o!>R=^*t}-L{aHh`Ev~S8O>#;=`~BGXAO>?F^%=C3}&hffi`jb
z)>4@PN-&ReudIs|^=cUXNE=97tV_3C_pBTR9Sse#j`XaY2AvL_Z{6lu`8xCsXno4_
ztXv0O51m47+$uNK(9O%oh#sx+{EffB?T_3`1wBRZSq)jovxLmC%$8U=o7o%e6D!Yn
zHY7XP5i3Kz>QOj2B3AbHYDBT%xLCQ#tCmMia567c;WXiLPh+YwwHYP1{Fp@9SeFy4
z(`q5OC>Ci|F7ytg5_oB>-0Gc7jlhj#<qyowz|CW&!>0+g1-FZp<vyj<72J(KlYc(y
z1@0ZoKOcpt@iRCH^he;OSZVW3F%629b$l~uBtoNN<rv?(Gyyy@R_^yLq3PfmvC`~U
zN^`;UVr7|MJ>P2ZVqR3aH62+gee>f<A+$VJ9{0<nH^8f6rLbktI`H~fnQ!BfI(TC&
z-g%&{;BB$`J>lJarTj1Q4#aZCbjf6YFZvj3kH*Sk{vGKv@QGOco6_gtv$6U&rLVvj
zV);GcSmhBUf<3-N;0iC~rot5Z0d^x+HVddlKY{P?2M6TR1MtIGc`zV@9)q96^1BZq
z(l^jaPvOsEWv#$^WR7FD#L3ZtnI2wXZ(hi?#VO<u3y70H1lFYxurp33+4*-Ya8#Up
z$zDit;P^QCo;{C}!6|X_wmp+Fz?pH<<)}ru;Ji55!I445;5u<~fg_(9fE&iiGmiSy
z4BR|Uh6I&S8*tk=IVh+Rbq05dlY4`5sVBHsoO}|LM&;oCad`E?HV{0B7d&{W7&Lf@
zOsk(n!x0=2Cszh%d5i^*<AvN@KVCiy_NGaQOpcSbkbd+E_|-T$fw>yII8NRQ=}jxa
zugA$2&OCY(ye>}8cc#$0;P>L>VP^(y0&k9!e>e+iCwNz!PILRf`{Q()I|BYFPN%s~
z!N=o_G<O<uCeBE6=OJIl=`{BZ_)?sa=B`4n#TjYtCgfI}PILFczr^V@_dECzpCAA8
zynn#|#u;hO9M58jH`1Ip#3$ZJa{-XRcq7d@A))a)%|(M<@kW|UfF#E2G*=6p7H_1v
zY)DSLF-I$bl*Su#w8oGZ<Bd658KeaZerjq5X&<i>T~~0oc%A5agZuEObE10*ToG?1
zy1|ek@%pExQQ*<>#!pR?Ad};Drkeqt$$N9An**L3uQS~uaCN-SbPBvY-pF)sKvu=;
zO!pS}?RcH(-Un}tH!|H;$hLT$>2`zn@D7~m4uB8xdGo6fAA^s^8=3A5<a6GLGu=1f
zOMFT^F8dyQJzi(JJK($VI@3J>Kjb@uaoL}czv7KdXGvhOCg@D(1@=zRna&>^kYHrG
zU`R-UF)oXOL?;;IvN%Y5f|2TyAt?z)s>^_6Cg^clE;x_($GEH*QYXO}m(_<fNZ8G9
z))fdE1sk2P`+<k>6|@|-B4M}1OY|0W1olya8tl#8>Iuln1a-h$<k30E7YXXAx9Cil
zA>SsbZa!Q=e-F8ypp=g&HQi27mwk9R^8mqz2`bK4w08fK<$1PnDCx_k^1oR9LZaH_
z%Tpa|A`2y|-+V=}$tO`|`tkqU6V-4({tFAk%J4+B$B+LhkP8x%s2=%o8<7A>OjI>(
zJe)~~WF)GIHvU<n08*H!uGvJUsU%U^{Y4hNh+vaM)xw|mZ2@VSsAl-{b#{PsOjPIn
zdB)Nc(koFl2;eDCf5=OTYDECw(!r1+iRzmGp397Zj7?Off&Af<AyX37l0ZJ%E09+c
z)r~+t;RTR|iOOXc%}gp$4YBiqRwKBEFW$~~?`_CCiRvdikBhcIwkE1Z4&HY+WDlRC
zgG=}$kdG48cMiU}Cm<&i`QMhf)QdqJ_zHmwiE43>XiZljR}<BpAU?GpA-5A%Q81s{
zFA#2ts)Bhq{uuHkQJoIv5!k<w7m`$X2%m*#5{p-o8Xv;9%^wnwq_&6fJS-FvmZYAB
z@MX9lF-fY($>&!SlANTLIfbMgNN$o!59QHFDWraq`XrPGU1g9KNvdHOH&GoSos!g+
zFfo{VL;57C*l;nD20{iUsa4@(9*u^K;iE<H2zv@-YLfaef=_2Q<dr1l7RlE$AF?1x
zHHhSUw*;~@NllC7w^Uz;ypg0%NAhUuZOA)GDnE+9?5&V(NoqqBPvky?>`PK2n&o52
w(InL=n(xjj$mt~Y4&*Dyg(USjS~Q?5kgG|m#Km3bEy#~a>J^trFpaMDe~S8V7ytkO

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.json
index c61d57f..dc9b672 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.json
@@ -1,51 +1,51 @@
 {
-  "Matigsalug": {
+  "English": {
     "sentenceCapitalisation": "Y",
     "properNounCapitalisation": "Y",
     "statementTerminator": ".",
     "questionTerminator": "?",
     "exclamationTerminator": "!",
     "commaPauseCharacter": ",",
-    "startQuoteLevel1": "\u201c",
-    "endQuoteLevel1": "\u201d",
-    "startQuoteLevel2": "\u2018",
-    "endQuoteLevel2": "\u2019",
-    "startQuoteLevel3": "\u201c",
-    "endQuoteLevel3": "\u201d",
+    "startQuoteLevel1": "“",
+    "endQuoteLevel1": "”",
+    "startQuoteLevel2": "‘",
+    "endQuoteLevel2": "’",
+    "startQuoteLevel3": "“",
+    "endQuoteLevel3": "”",
     "startQuoteLevel4": "",
     "endQuoteLevel4": "",
     "booknameCase": "ME",
     "booknameLength": "3",
-    "punctuationAfterBookAbbreviation": "",
+    "punctuationAfterBookAbbreviation": ".",
     "bookChapterSeparator": " ",
     "spaceAllowedAfterBCS": "E",
     "chapterVerseSeparator": ":",
     "verseSeparator": ",",
-    "bookBridgeCharacter": "\u2013",
-    "chapterBridgeCharacter": "\u2013",
+    "bookBridgeCharacter": "-",
+    "chapterBridgeCharacter": "-",
     "verseBridgeCharacter": "-",
     "chapterSeparator": ";",
     "bookSeparator": ";",
-    "allowedVerseSuffixes": "ab"
+    "allowedVerseSuffixes": "abcdef"
   },
-  "English": {
+  "English_brief": {
     "sentenceCapitalisation": "Y",
     "properNounCapitalisation": "Y",
     "statementTerminator": ".",
     "questionTerminator": "?",
     "exclamationTerminator": "!",
     "commaPauseCharacter": ",",
-    "startQuoteLevel1": "\u201c",
-    "endQuoteLevel1": "\u201d",
-    "startQuoteLevel2": "\u2018",
-    "endQuoteLevel2": "\u2019",
-    "startQuoteLevel3": "\u201c",
-    "endQuoteLevel3": "\u201d",
+    "startQuoteLevel1": "“",
+    "endQuoteLevel1": "”",
+    "startQuoteLevel2": "‘",
+    "endQuoteLevel2": "’",
+    "startQuoteLevel3": "“",
+    "endQuoteLevel3": "”",
     "startQuoteLevel4": "",
     "endQuoteLevel4": "",
     "booknameCase": "ME",
     "booknameLength": "3",
-    "punctuationAfterBookAbbreviation": ".",
+    "punctuationAfterBookAbbreviation": "",
     "bookChapterSeparator": " ",
     "spaceAllowedAfterBCS": "E",
     "chapterVerseSeparator": ":",
@@ -57,19 +57,19 @@
     "bookSeparator": ";",
     "allowedVerseSuffixes": "abcdef"
   },
-  "English_brief": {
+  "Matigsalug": {
     "sentenceCapitalisation": "Y",
     "properNounCapitalisation": "Y",
     "statementTerminator": ".",
     "questionTerminator": "?",
     "exclamationTerminator": "!",
     "commaPauseCharacter": ",",
-    "startQuoteLevel1": "\u201c",
-    "endQuoteLevel1": "\u201d",
-    "startQuoteLevel2": "\u2018",
-    "endQuoteLevel2": "\u2019",
-    "startQuoteLevel3": "\u201c",
-    "endQuoteLevel3": "\u201d",
+    "startQuoteLevel1": "“",
+    "endQuoteLevel1": "”",
+    "startQuoteLevel2": "‘",
+    "endQuoteLevel2": "’",
+    "startQuoteLevel3": "“",
+    "endQuoteLevel3": "”",
     "startQuoteLevel4": "",
     "endQuoteLevel4": "",
     "booknameCase": "ME",
@@ -79,11 +79,11 @@
     "spaceAllowedAfterBCS": "E",
     "chapterVerseSeparator": ":",
     "verseSeparator": ",",
-    "bookBridgeCharacter": "-",
-    "chapterBridgeCharacter": "-",
+    "bookBridgeCharacter": "–",
+    "chapterBridgeCharacter": "–",
     "verseBridgeCharacter": "-",
     "chapterSeparator": ";",
     "bookSeparator": ";",
-    "allowedVerseSuffixes": "abcdef"
+    "allowedVerseSuffixes": "ab"
   }
 }
\ No newline at end of file
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BiblePunctuationSystems_Tables.pickle
index eb7f9bf3466142f16f9717995f20408db896a179..01a3ff794a54ba36556434a25521a72fa80f2046 100644
GIT binary patch
delta 48
zcmeAc=oa8>V42Fm!2kxeQ#2-@U{c#?HGy$*A&bQ1M~u%W@@sGIWBtjv`8kUUGXOsd
B4(k8_

delta 52
zcmeAc=oa8>V42Fm!2kxeQ#2+YV$#`YGJ$b&A&bQ1JB-gK@~dus$JER?`3R%L=1!I-
FW&nKb5HJ7$

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.json
index 2956ead..6273362 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.json
@@ -1,5 +1,5 @@
 {
-  "Syriac": {
+  "BibMaxRef": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -33,7 +33,7 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "54",
+        "31": "55",
         "32": "33",
         "33": "20",
         "34": "31",
@@ -60,10 +60,10 @@
         "2": "25",
         "3": "22",
         "4": "31",
-        "5": "23",
+        "5": "24",
         "6": "30",
         "7": "29",
-        "8": "28",
+        "8": "32",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -77,7 +77,7 @@
         "19": "25",
         "20": "26",
         "21": "37",
-        "22": "30",
+        "22": "31",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -104,7 +104,7 @@
         "3": "17",
         "4": "35",
         "5": "26",
-        "6": "23",
+        "6": "30",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -144,7 +144,7 @@
         "13": "33",
         "14": "45",
         "15": "41",
-        "16": "35",
+        "16": "50",
         "17": "28",
         "18": "32",
         "19": "22",
@@ -153,11 +153,11 @@
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "19",
+        "25": "18",
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "39",
+        "29": "40",
         "30": "17",
         "31": "54",
         "32": "42",
@@ -179,7 +179,7 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "31",
+        "12": "32",
         "13": "19",
         "14": "29",
         "15": "23",
@@ -189,14 +189,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "29",
+        "22": "30",
         "23": "26",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
         "28": "69",
-        "29": "28",
+        "29": "29",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -285,7 +285,7 @@
         "20": "42",
         "21": "16",
         "22": "23",
-        "23": "28",
+        "23": "29",
         "24": "23",
         "25": "44",
         "26": "25",
@@ -327,7 +327,7 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "20",
+        "4": "34",
         "5": "32",
         "6": "38",
         "7": "51",
@@ -343,8 +343,8 @@
         "17": "24",
         "18": "46",
         "19": "21",
-        "20": "43",
-        "21": "29",
+        "20": "29",
+        "21": "43",
         "22": "54"
       },
       "KI2": {
@@ -359,7 +359,7 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "20",
+        "11": "21",
         "12": "22",
         "13": "25",
         "14": "29",
@@ -376,13 +376,13 @@
         "25": "30"
       },
       "CH1": {
-        "numChapters": "28",
+        "numChapters": "29",
         "1": "54",
-        "2": "54",
-        "3": "23",
+        "2": "55",
+        "3": "24",
         "4": "43",
         "5": "41",
-        "6": "66",
+        "6": "81",
         "7": "40",
         "8": "40",
         "9": "44",
@@ -400,28 +400,30 @@
         "21": "30",
         "22": "19",
         "23": "32",
-        "24": "26",
+        "24": "31",
         "25": "31",
-        "26": "12",
+        "26": "32",
+        "27": "34",
         "28": "21",
         "29": "30"
       },
       "CH2": {
-        "numChapters": "35",
-        "1": "17",
+        "numChapters": "36",
+        "1": "18",
         "2": "18",
         "3": "17",
-        "4": "18",
+        "4": "22",
         "5": "14",
         "6": "42",
         "7": "22",
         "8": "18",
         "9": "31",
         "10": "19",
-        "11": "16",
-        "13": "22",
-        "14": "15",
-        "15": "18",
+        "11": "23",
+        "12": "16",
+        "13": "23",
+        "14": "14",
+        "15": "19",
         "16": "14",
         "17": "19",
         "18": "34",
@@ -445,7 +447,7 @@
         "36": "23"
       },
       "EZR": {
-        "numChapters": "10",
+        "numChapters": "23",
         "1": "11",
         "2": "70",
         "3": "13",
@@ -455,20 +457,33 @@
         "7": "28",
         "8": "36",
         "9": "15",
-        "10": "44"
+        "10": "44",
+        "11": "11",
+        "12": "20",
+        "13": "32",
+        "14": "23",
+        "15": "19",
+        "16": "19",
+        "17": "73",
+        "18": "18",
+        "19": "38",
+        "20": "39",
+        "21": "36",
+        "22": "47",
+        "23": "31"
       },
       "NEH": {
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "38",
-        "4": "17",
+        "3": "32",
+        "4": "23",
         "5": "19",
         "6": "19",
-        "7": "72",
+        "7": "73",
         "8": "18",
-        "9": "37",
-        "10": "40",
+        "9": "38",
+        "10": "39",
         "11": "36",
         "12": "47",
         "13": "31"
@@ -477,7 +492,7 @@
         "numChapters": "10",
         "1": "22",
         "2": "23",
-        "3": "14",
+        "3": "15",
         "4": "17",
         "5": "14",
         "6": "14",
@@ -492,7 +507,7 @@
         "2": "13",
         "3": "26",
         "4": "21",
-        "5": "26",
+        "5": "27",
         "6": "30",
         "7": "21",
         "8": "22",
@@ -525,14 +540,14 @@
         "35": "16",
         "36": "33",
         "37": "24",
-        "38": "14",
+        "38": "41",
         "39": "30",
         "40": "32",
         "41": "26",
         "42": "17"
       },
       "PSA": {
-        "numChapters": "150",
+        "numChapters": "151",
         "1": "6",
         "2": "12",
         "3": "9",
@@ -541,148 +556,149 @@
         "6": "11",
         "7": "18",
         "8": "10",
-        "9": "21",
-        "10": "18",
-        "11": "7",
-        "12": "9",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "51",
-        "19": "15",
-        "20": "10",
-        "21": "14",
-        "22": "32",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "13",
-        "31": "25",
-        "32": "11",
-        "33": "22",
-        "34": "23",
-        "35": "28",
-        "36": "13",
-        "37": "40",
-        "38": "23",
-        "39": "14",
-        "40": "18",
-        "41": "14",
-        "42": "12",
-        "43": "5",
-        "44": "27",
-        "45": "18",
-        "46": "12",
-        "47": "10",
-        "48": "15",
-        "49": "21",
-        "50": "23",
-        "51": "21",
-        "52": "11",
-        "53": "7",
-        "54": "9",
-        "55": "24",
-        "56": "14",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
         "57": "12",
-        "58": "12",
-        "59": "18",
-        "60": "13",
-        "61": "9",
-        "62": "13",
-        "63": "12",
-        "64": "11",
-        "65": "14",
-        "66": "20",
-        "67": "8",
-        "68": "36",
-        "69": "37",
-        "70": "6",
-        "71": "24",
-        "72": "19",
-        "73": "28",
-        "74": "23",
-        "75": "11",
-        "76": "13",
-        "77": "21",
-        "78": "72",
-        "79": "13",
-        "80": "20",
-        "81": "17",
-        "82": "8",
-        "83": "19",
-        "84": "13",
-        "85": "14",
-        "86": "17",
-        "87": "7",
-        "88": "19",
-        "89": "53",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
         "90": "17",
         "91": "16",
-        "92": "16",
-        "93": "5",
+        "92": "15",
+        "93": "23",
         "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
+        "95": "13",
+        "96": "12",
+        "97": "9",
         "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "29",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "14",
-        "109": "31",
-        "110": "7",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "28",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
         "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
         "122": "9",
-        "123": "4",
+        "123": "8",
         "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
         "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
+        "130": "3",
+        "131": "18",
+        "132": "3",
         "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "14",
-        "141": "10",
-        "142": "8",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
         "148": "14",
         "149": "9",
-        "150": "6"
+        "150": "6",
+        "151": "7"
       },
       "PRO": {
         "numChapters": "31",
@@ -703,7 +719,7 @@
         "15": "33",
         "16": "33",
         "17": "28",
-        "18": "24",
+        "18": "22",
         "19": "29",
         "20": "30",
         "21": "31",
@@ -745,9 +761,9 @@
         "8": "14"
       },
       "ISA": {
-        "numChapters": "65",
+        "numChapters": "66",
         "1": "31",
-        "2": "22",
+        "2": "21",
         "3": "26",
         "4": "6",
         "5": "30",
@@ -774,7 +790,7 @@
         "26": "21",
         "27": "13",
         "28": "29",
-        "29": "23",
+        "29": "24",
         "30": "33",
         "31": "9",
         "32": "20",
@@ -783,7 +799,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "21",
+        "38": "22",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -797,10 +813,11 @@
         "49": "26",
         "50": "11",
         "51": "23",
+        "52": "15",
         "53": "12",
         "54": "17",
         "55": "13",
-        "56": "12",
+        "56": "11",
         "57": "21",
         "58": "14",
         "59": "21",
@@ -838,33 +855,33 @@
         "22": "30",
         "23": "40",
         "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
+        "25": "20",
+        "26": "28",
+        "27": "46",
+        "28": "64",
+        "29": "7",
+        "30": "33",
+        "31": "44",
+        "32": "38",
+        "33": "24",
         "34": "22",
-        "35": "19",
+        "35": "17",
         "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
+        "37": "24",
+        "38": "40",
+        "39": "44",
+        "40": "13",
+        "41": "22",
+        "42": "19",
+        "43": "32",
+        "44": "21",
+        "45": "28",
+        "46": "18",
+        "47": "16",
+        "48": "18",
+        "49": "22",
+        "50": "13",
+        "51": "35",
         "52": "34"
       },
       "LAM": {
@@ -896,7 +913,7 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "44",
+        "20": "49",
         "21": "37",
         "22": "31",
         "23": "49",
@@ -920,7 +937,7 @@
         "41": "26",
         "42": "20",
         "43": "27",
-        "44": "36",
+        "44": "31",
         "45": "25",
         "46": "24",
         "47": "23",
@@ -930,9 +947,9 @@
         "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "33",
-        "4": "34",
-        "5": "30",
+        "3": "97",
+        "4": "37",
+        "5": "31",
         "6": "29",
         "7": "28",
         "8": "27",
@@ -943,7 +960,7 @@
       },
       "HOS": {
         "numChapters": "14",
-        "1": "9",
+        "1": "11",
         "2": "25",
         "3": "5",
         "4": "19",
@@ -953,16 +970,16 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "11",
+        "11": "12",
         "12": "15",
-        "13": "15",
+        "13": "16",
         "14": "10"
       },
       "JOL": {
         "numChapters": "4",
         "1": "20",
-        "2": "27",
-        "3": "5",
+        "2": "32",
+        "3": "21",
         "4": "21"
       },
       "AMO": {
@@ -983,7 +1000,7 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "16",
+        "1": "17",
         "2": "11",
         "3": "10",
         "4": "11"
@@ -994,13 +1011,13 @@
         "2": "13",
         "3": "12",
         "4": "14",
-        "5": "14",
+        "5": "15",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "14",
+        "1": "15",
         "2": "14",
         "3": "19"
       },
@@ -1023,7 +1040,7 @@
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "17",
+        "1": "21",
         "2": "17",
         "3": "10",
         "4": "14",
@@ -1039,10 +1056,11 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "14",
         "2": "17",
-        "3": "24"
+        "3": "24",
+        "4": "6"
       },
       "MAT": {
         "numChapters": "28",
@@ -1228,7 +1246,7 @@
         "10": "18",
         "11": "33",
         "12": "21",
-        "13": "13"
+        "13": "14"
       },
       "GAL": {
         "numChapters": "6",
@@ -1391,14 +1409,14 @@
         "2": "14",
         "3": "17",
         "4": "21",
-        "5": "22",
-        "6": "18",
-        "7": "17",
+        "5": "23",
+        "6": "19",
+        "7": "18",
         "8": "21",
         "9": "6",
-        "10": "12",
+        "10": "14",
         "11": "19",
-        "12": "21",
+        "12": "22",
         "13": "18",
         "14": "15"
       },
@@ -1418,9 +1436,22 @@
         "12": "20",
         "13": "20",
         "14": "19",
-        "15": "13",
+        "15": "14",
         "16": "25"
       },
+      "ESG": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
       "WIS": {
         "numChapters": "19",
         "1": "16",
@@ -1429,7 +1460,7 @@
         "4": "20",
         "5": "23",
         "6": "25",
-        "7": "39",
+        "7": "30",
         "8": "21",
         "9": "18",
         "10": "21",
@@ -1444,7 +1475,7 @@
         "19": "22"
       },
       "SIR": {
-        "numChapters": "52",
+        "numChapters": "51",
         "1": "30",
         "2": "18",
         "3": "31",
@@ -1464,17 +1495,17 @@
         "17": "32",
         "18": "33",
         "19": "30",
-        "20": "31",
+        "20": "32",
         "21": "28",
         "22": "27",
-        "23": "27",
-        "24": "33",
+        "23": "28",
+        "24": "34",
         "25": "26",
         "26": "29",
         "27": "30",
         "28": "26",
         "29": "28",
-        "30": "24",
+        "30": "25",
         "31": "31",
         "32": "24",
         "33": "33",
@@ -1482,12 +1513,12 @@
         "35": "26",
         "36": "31",
         "37": "31",
-        "38": "35",
+        "38": "34",
         "39": "35",
         "40": "30",
-        "41": "12",
+        "41": "27",
         "42": "25",
-        "43": "10",
+        "43": "33",
         "44": "23",
         "45": "26",
         "46": "20",
@@ -1498,16 +1529,21 @@
         "51": "30"
       },
       "BAR": {
-        "numChapters": "5",
+        "numChapters": "6",
         "1": "22",
         "2": "35",
-        "3": "35",
+        "3": "38",
         "4": "37",
-        "5": "9"
+        "5": "9",
+        "6": "72"
       },
       "LJE": {
         "numChapters": "1",
-        "1": "72"
+        "1": "73"
+      },
+      "PAZ": {
+        "numChapters": "1",
+        "1": "68"
       },
       "SUS": {
         "numChapters": "1",
@@ -1531,7 +1567,7 @@
         "10": "89",
         "11": "74",
         "12": "53",
-        "13": "54",
+        "13": "53",
         "14": "49",
         "15": "41",
         "16": "24"
@@ -1543,13 +1579,13 @@
         "3": "40",
         "4": "50",
         "5": "27",
-        "6": "42",
+        "6": "31",
         "7": "42",
         "8": "36",
         "9": "29",
         "10": "38",
         "11": "38",
-        "12": "46",
+        "12": "45",
         "13": "26",
         "14": "46",
         "15": "39"
@@ -1572,13 +1608,13 @@
         "4": "26",
         "5": "38",
         "6": "35",
-        "7": "25",
-        "8": "28",
+        "7": "23",
+        "8": "29",
         "9": "32",
         "10": "21",
         "11": "27",
-        "12": "20",
-        "13": "26",
+        "12": "19",
+        "13": "27",
         "14": "20",
         "15": "32",
         "16": "25",
@@ -1587,1555 +1623,1217 @@
       },
       "GES": {
         "numChapters": "9",
-        "1": "55",
-        "2": "25",
-        "3": "23",
+        "1": "58",
+        "2": "30",
+        "3": "24",
         "4": "63",
-        "5": "70",
-        "6": "33",
+        "5": "73",
+        "6": "34",
         "7": "15",
-        "8": "92",
+        "8": "96",
         "9": "55"
       },
       "LES": {
-        "numChapters": "12",
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
         "3": "36",
         "4": "52",
         "5": "56",
         "6": "59",
-        "7": "139",
+        "7": "140",
         "8": "63",
         "9": "47",
-        "10": "60",
+        "10": "59",
         "11": "46",
         "12": "51",
         "13": "58",
-        "14": "48"
+        "14": "48",
+        "15": "63",
+        "16": "78"
       },
       "MAN": {
         "numChapters": "1",
         "1": "15"
       },
       "PS2": {
-        "numChapters": "5",
-        "1": "7",
-        "2": "6",
-        "3": "6",
-        "4": "20",
-        "5": "21"
+        "numChapters": "1",
+        "1": "7"
       },
       "ODE": {
-        "numChapters": "11",
-        "1": "21",
+        "numChapters": "14",
+        "1": "19",
         "2": "43",
-        "3": "8",
-        "4": "10",
-        "5": "19",
-        "6": "19",
-        "7": "10",
-        "8": "56",
-        "9": "88",
-        "10": "20",
-        "11": "12"
+        "3": "10",
+        "4": "19",
+        "5": "12",
+        "6": "8",
+        "7": "20",
+        "8": "37",
+        "9": "22",
+        "10": "9",
+        "11": "11",
+        "12": "15",
+        "13": "4",
+        "14": "46"
       },
       "PSS": {
         "numChapters": "18",
         "1": "8",
-        "2": "41",
-        "3": "16",
-        "4": "29",
-        "5": "22",
-        "6": "9",
-        "7": "9",
-        "8": "40",
-        "9": "20",
-        "10": "9",
+        "2": "37",
+        "3": "12",
+        "4": "25",
+        "5": "19",
+        "6": "6",
+        "7": "10",
+        "8": "34",
+        "9": "11",
+        "10": "8",
         "11": "9",
-        "12": "8",
-        "13": "11",
-        "14": "6",
-        "15": "15",
+        "12": "6",
+        "13": "12",
+        "14": "10",
+        "15": "13",
         "16": "15",
-        "17": "51",
-        "18": "7"
-      }
-    },
-    "omitted": {},
-    "combined": {},
-    "reordered": {}
-  },
-  "RSV52": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "55",
-        "32": "32",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "25",
-        "8": "32",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "36",
-        "22": "31",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "29",
-        "38": "31",
-        "39": "43",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "19",
-        "6": "30",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
+        "17": "46",
+        "18": "12"
       },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
+      "DNG": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
         "5": "31",
-        "6": "27",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
-        "14": "45",
-        "15": "41",
-        "16": "50",
-        "17": "13",
-        "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "40",
-        "30": "16",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
-      },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "32",
-        "13": "18",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "30",
-        "23": "25",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "68",
-        "29": "29",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
-      },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "35",
+        "6": "28",
+        "7": "28",
+        "8": "27",
         "9": "27",
-        "10": "43",
-        "11": "23",
-        "12": "24",
-        "13": "33",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "42"
       },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "25"
-      },
-      "RUT": {
+      "PS3": {
         "numChapters": "4",
-        "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
-      },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "58",
-        "18": "30",
-        "19": "24",
-        "20": "42",
-        "21": "15",
-        "22": "23",
-        "23": "29",
-        "24": "22",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
+        "1": "17",
+        "2": "20",
+        "3": "6",
+        "4": "6"
       },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
+      "BA2": {
+        "numChapters": "77",
+        "1": "5",
+        "2": "2",
+        "3": "9",
+        "4": "7",
+        "5": "7",
+        "6": "10",
+        "7": "2",
+        "8": "5",
+        "9": "1",
         "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "33",
-        "19": "43",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "34",
-        "5": "18",
-        "6": "38",
-        "7": "51",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "43",
-        "21": "29",
-        "22": "53"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "21",
-        "12": "21",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
+        "11": "7",
+        "12": "5",
+        "13": "12",
+        "14": "19",
+        "15": "8",
+        "16": "1",
+        "17": "4",
+        "18": "2",
+        "19": "8",
+        "20": "6",
         "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
+        "22": "8",
+        "23": "7",
+        "24": "4",
+        "25": "4",
+        "26": "1",
+        "27": "15",
+        "28": "7",
+        "29": "8",
+        "30": "5",
+        "31": "5",
+        "32": "9",
+        "33": "3",
+        "34": "1",
+        "35": "5",
+        "36": "10",
+        "37": "1",
+        "38": "4",
+        "39": "8",
+        "40": "4",
+        "41": "6",
+        "42": "8",
+        "43": "3",
+        "44": "15",
+        "45": "2",
+        "46": "7",
+        "47": "2",
+        "48": "50",
+        "49": "3",
+        "50": "4",
+        "51": "16",
+        "52": "8",
+        "53": "12",
+        "54": "22",
+        "55": "8",
+        "56": "16",
+        "57": "3",
+        "58": "2",
+        "59": "12",
+        "60": "2",
+        "61": "8",
+        "62": "8",
+        "63": "11",
+        "64": "10",
+        "65": "2",
+        "66": "8",
+        "67": "9",
+        "68": "8",
+        "69": "5",
+        "70": "10",
+        "71": "3",
+        "72": "6",
+        "73": "7",
+        "74": "4",
+        "75": "8",
+        "76": "5",
+        "77": "26"
       },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "26",
-        "6": "81",
-        "7": "40",
+      "LBA": {
+        "numChapters": "9",
+        "78": "7",
+        "79": "3",
+        "80": "7",
+        "81": "4",
+        "82": "9",
+        "83": "23",
+        "84": "11",
+        "85": "15",
+        "86": "3"
+      },
+      "JUB": {
+        "numChapters": "34",
+        "1": "26",
+        "2": "17",
+        "3": "19",
+        "4": "24",
+        "5": "36",
+        "6": "34",
+        "7": "37",
         "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "40",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
+        "9": "27",
+        "10": "48",
+        "11": "39",
+        "12": "56",
+        "13": "34",
+        "14": "55",
+        "15": "20",
+        "16": "28",
+        "17": "30",
+        "18": "31",
+        "19": "59",
+        "20": "66",
         "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
+        "22": "38",
+        "23": "59",
+        "24": "30",
+        "25": "50",
+        "26": "48",
+        "27": "37",
+        "28": "38",
+        "29": "27",
+        "30": "29",
+        "31": "31",
+        "32": "24",
+        "33": "30",
+        "34": "20"
       },
-      "CH2": {
-        "numChapters": "36",
-        "1": "17",
-        "2": "18",
-        "3": "17",
-        "4": "22",
-        "5": "14",
+      "ENO": {
+        "numChapters": "42",
+        "1": "28",
+        "2": "42",
+        "3": "30",
+        "4": "88",
+        "5": "40",
         "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "22",
-        "14": "15",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
+        "7": "39",
+        "8": "46",
+        "9": "42",
+        "10": "16",
+        "11": "19",
+        "12": "40",
+        "13": "34",
+        "14": "35",
+        "15": "45",
+        "16": "41",
+        "17": "69",
+        "18": "42",
+        "19": "29",
+        "20": "53",
+        "21": "57",
+        "22": "14",
+        "23": "26",
+        "24": "16",
+        "25": "30",
+        "26": "37",
+        "27": "21",
+        "28": "34",
+        "29": "28",
+        "30": "23",
+        "31": "29",
+        "32": "82",
+        "33": "59",
+        "34": "49",
+        "35": "36",
+        "36": "30",
+        "37": "34",
+        "38": "36",
+        "39": "24",
+        "40": "40",
+        "41": "22",
+        "42": "16"
       },
-      "EZR": {
-        "numChapters": "10",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44"
+      "MQ1": {
+        "numChapters": "36",
+        "1": "28",
+        "2": "28",
+        "3": "38",
+        "4": "37",
+        "5": "39",
+        "6": "38",
+        "7": "33",
+        "8": "35",
+        "9": "10",
+        "10": "8",
+        "11": "8",
+        "12": "44",
+        "13": "27",
+        "14": "23",
+        "15": "20",
+        "16": "9",
+        "17": "8",
+        "18": "12",
+        "19": "17",
+        "20": "4",
+        "21": "31",
+        "22": "11",
+        "23": "7",
+        "24": "22",
+        "25": "18",
+        "26": "5",
+        "27": "20",
+        "28": "49",
+        "29": "17",
+        "30": "16",
+        "31": "7",
+        "32": "4",
+        "33": "11",
+        "34": "18",
+        "35": "8",
+        "36": "46"
       },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "32",
-        "4": "23",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "38",
-        "10": "39",
-        "11": "36",
-        "12": "47",
-        "13": "31"
+      "MQ2": {
+        "numChapters": "20",
+        "1": "13",
+        "2": "11",
+        "3": "29",
+        "4": "32",
+        "5": "18",
+        "6": "24",
+        "7": "9",
+        "8": "24",
+        "9": "27",
+        "10": "28",
+        "11": "25",
+        "12": "15",
+        "13": "14",
+        "14": "36",
+        "15": "21",
+        "16": "15",
+        "17": "12",
+        "18": "14",
+        "19": "15",
+        "20": "14"
       },
-      "EST": {
+      "MQ3": {
         "numChapters": "10",
-        "1": "22",
+        "1": "24",
         "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
+        "3": "11",
+        "4": "36",
+        "5": "16",
+        "6": "16",
+        "7": "5",
+        "8": "12",
+        "9": "36",
+        "10": "29"
       },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
+      "REP": {
+        "numChapters": "6",
+        "1": "28",
+        "2": "28",
+        "3": "27",
+        "4": "28",
         "5": "27",
-        "6": "30",
-        "7": "21",
+        "6": "22"
+      },
+      "BA4": {
+        "numChapters": "5",
+        "1": "30",
+        "2": "29",
+        "3": "30",
+        "4": "33",
+        "5": "62"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "Catholic": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
         "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "54",
+        "32": "33",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "29",
+        "8": "28",
         "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "22",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
         "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "37",
         "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
-        "10": "18",
-        "11": "7",
-        "12": "8",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "12",
-        "31": "24",
-        "32": "11",
-        "33": "22",
-        "34": "22",
-        "35": "28",
-        "36": "12",
-        "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
-        "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
-        "62": "12",
-        "63": "11",
-        "64": "10",
-        "65": "13",
-        "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
-        "78": "72",
-        "79": "13",
-        "80": "19",
-        "81": "16",
-        "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
-        "86": "17",
-        "87": "7",
-        "88": "18",
-        "89": "52",
-        "90": "17",
-        "91": "16",
-        "92": "15",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
-        "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "28",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "13",
-        "109": "31",
-        "110": "7",
-        "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
-        "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
-        "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "13",
-        "141": "10",
-        "142": "7",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
-        "148": "14",
-        "149": "9",
-        "150": "6"
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "29",
+        "38": "31",
+        "39": "43",
+        "40": "38"
       },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "26",
+        "6": "23",
+        "7": "38",
         "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "57",
         "15": "33",
-        "16": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "27",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "16",
+        "13": "33",
+        "14": "45",
+        "15": "41",
+        "16": "35",
         "17": "28",
-        "18": "24",
-        "19": "29",
-        "20": "30",
-        "21": "31",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "19",
+        "26": "66",
+        "27": "23",
+        "28": "31",
+        "29": "39",
+        "30": "17",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "31",
+        "13": "19",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
         "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
+        "23": "26",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "69",
+        "29": "28",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
       },
-      "ECC": {
-        "numChapters": "12",
+      "JOS": {
+        "numChapters": "24",
         "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "16",
-        "5": "20",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "17",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "16",
-        "6": "13",
-        "7": "13",
-        "8": "14"
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "35",
+        "9": "27",
+        "10": "43",
+        "11": "23",
+        "12": "24",
+        "13": "33",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
       },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "22",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "32",
+        "6": "40",
         "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
         "8": "22",
-        "9": "21",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "12",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "12",
-        "65": "25",
-        "66": "24"
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "58",
+        "18": "30",
+        "19": "24",
+        "20": "42",
+        "21": "16",
+        "22": "23",
+        "23": "28",
+        "24": "23",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
       },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "22",
-        "9": "26",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
-        "34": "22",
-        "35": "19",
-        "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "32",
+        "19": "44",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
       },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "20",
+        "5": "32",
+        "6": "38",
+        "7": "51",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "43",
+        "21": "29",
+        "22": "54"
       },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
         "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "20",
+        "12": "22",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "41",
+        "6": "66",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "41",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "18",
+        "2": "17",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
         "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
         "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "49",
-        "21": "32",
-        "22": "31",
-        "23": "49",
+        "14": "14",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
         "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
       },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "30",
-        "4": "37",
-        "5": "31",
-        "6": "28",
+      "EZR": {
+        "numChapters": "10",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
         "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
+        "8": "36",
+        "9": "15",
+        "10": "44"
       },
-      "HOS": {
-        "numChapters": "14",
+      "NEH": {
+        "numChapters": "13",
         "1": "11",
-        "2": "23",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
+        "2": "20",
+        "3": "38",
+        "4": "17",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "37",
+        "10": "40",
+        "11": "36",
+        "12": "47",
+        "13": "31"
       },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
         "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "17",
-        "2": "10",
-        "3": "10",
-        "4": "11"
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
       },
-      "MIC": {
-        "numChapters": "7",
+      "JDT": {
+        "numChapters": "16",
         "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "15",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
       },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
       },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "54",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
       },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "46",
+        "13": "26",
+        "14": "46",
+        "15": "39"
       },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
         "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
         "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
         "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "41",
-        "20": "38",
-        "21": "40",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
         "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
+        "23": "17",
+        "24": "25",
+        "25": "14",
+        "26": "14",
+        "27": "24",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "30",
+        "40": "32",
+        "41": "26",
+        "42": "17"
       },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "12",
+        "3": "9",
+        "4": "9",
         "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "21",
         "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "14"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
+        "11": "7",
+        "12": "9",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "51",
+        "19": "15",
+        "20": "10",
+        "21": "14",
+        "22": "32",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "13",
+        "31": "25",
+        "32": "11",
+        "33": "22",
+        "34": "23",
+        "35": "28",
+        "36": "13",
+        "37": "40",
+        "38": "23",
+        "39": "14",
+        "40": "18",
+        "41": "14",
+        "42": "12",
+        "43": "5",
+        "44": "27",
+        "45": "18",
+        "46": "12",
+        "47": "10",
+        "48": "15",
+        "49": "21",
+        "50": "24",
+        "51": "21",
+        "52": "11",
+        "53": "7",
+        "54": "9",
+        "55": "24",
+        "56": "14",
+        "57": "12",
+        "58": "12",
+        "59": "18",
+        "60": "14",
+        "61": "9",
+        "62": "13",
+        "63": "12",
+        "64": "11",
+        "65": "14",
+        "66": "20",
+        "67": "8",
+        "68": "36",
+        "69": "37",
+        "70": "6",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "11",
+        "76": "13",
+        "77": "21",
+        "78": "72",
+        "79": "13",
+        "80": "20",
+        "81": "17",
+        "82": "8",
+        "83": "19",
+        "84": "13",
+        "85": "14",
+        "86": "17",
+        "87": "7",
+        "88": "19",
+        "89": "53",
+        "90": "17",
+        "91": "16",
+        "92": "16",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
+        "98": "9",
+        "99": "9",
+        "100": "5",
+        "101": "9",
+        "102": "29",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "14",
+        "109": "31",
+        "110": "7",
+        "111": "10",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
+        "129": "8",
+        "130": "8",
+        "131": "3",
+        "132": "18",
+        "133": "3",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "14",
+        "141": "10",
+        "142": "8",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
+        "148": "14",
+        "149": "9",
+        "150": "6"
       },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
         "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "24",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
       },
-      "TI2": {
-        "numChapters": "4",
+      "ECC": {
+        "numChapters": "12",
         "1": "18",
         "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
+        "3": "22",
+        "4": "17",
+        "5": "19",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
       },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
+      "SNG": {
+        "numChapters": "8",
+        "1": "17",
+        "2": "17",
+        "3": "11",
+        "4": "17",
+        "5": "16",
+        "6": "12",
+        "7": "14",
+        "8": "14"
       },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
         "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "17",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "21",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "ESG": {
-        "numChapters": "7",
-        "1": "13",
-        "2": "12",
-        "3": "6",
-        "4": "18",
-        "5": "19",
-        "6": "16",
-        "7": "24"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "73"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "13",
-        "16": "25"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
       },
       "SIR": {
         "numChapters": "51",
@@ -3143,7 +2841,7 @@
         "2": "18",
         "3": "31",
         "4": "31",
-        "5": "15",
+        "5": "17",
         "6": "37",
         "7": "36",
         "8": "19",
@@ -3161,7 +2859,7 @@
         "20": "32",
         "21": "28",
         "22": "27",
-        "23": "27",
+        "23": "28",
         "24": "34",
         "25": "26",
         "26": "29",
@@ -3171,17 +2869,17 @@
         "30": "25",
         "31": "31",
         "32": "24",
-        "33": "31",
-        "34": "26",
-        "35": "20",
-        "36": "26",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "31",
         "37": "31",
         "38": "34",
         "39": "35",
         "40": "30",
-        "41": "23",
+        "41": "27",
         "42": "25",
-        "43": "33",
+        "43": "35",
         "44": "23",
         "45": "26",
         "46": "20",
@@ -3191,142 +2889,665 @@
         "50": "29",
         "51": "30"
       },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "21",
-        "6": "17",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "12",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "22",
+        "3": "26",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "24",
+        "9": "21",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "12",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "11",
+        "65": "25",
+        "66": "24"
       },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "23",
+        "9": "25",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
+        "34": "22",
+        "35": "19",
+        "36": "32",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
       },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
       },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9",
+        "6": "72"
       },
-      "MA3": {
-        "numChapters": "7",
-        "1": "29",
-        "2": "33",
-        "3": "30",
-        "4": "21",
-        "5": "51",
-        "6": "41",
-        "7": "23"
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "44",
+        "21": "37",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
       },
-      "MA4": {
-        "numChapters": "18",
-        "1": "35",
-        "2": "24",
-        "3": "21",
-        "4": "26",
-        "5": "38",
-        "6": "35",
-        "7": "23",
-        "8": "29",
-        "9": "32",
+      "DAN": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "100",
+        "4": "34",
+        "5": "30",
+        "6": "29",
+        "7": "28",
+        "8": "27",
+        "9": "27",
         "10": "21",
-        "11": "27",
-        "12": "19",
-        "13": "27",
-        "14": "20",
-        "15": "32",
-        "16": "25",
-        "17": "24",
-        "18": "24"
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "43"
       },
-      "PS2": {
-        "numChapters": "1",
-        "1": "7"
+      "HOS": {
+        "numChapters": "14",
+        "1": "9",
+        "2": "25",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "11",
+        "12": "15",
+        "13": "15",
+        "14": "10"
       },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
+      "JOL": {
+        "numChapters": "4",
+        "1": "20",
+        "2": "27",
+        "3": "5",
+        "4": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "14",
+        "5": "14",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "14",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "17",
+        "2": "17",
+        "3": "10",
+        "4": "16",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "17",
+        "3": "24"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "49",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "41",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "23",
+        "15": "33",
+        "16": "27"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "13"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
       }
     },
-    "omitted": {
-      "ESG": [
-        [
-          "1",
-          "1"
-        ],
-        [
-          "1",
-          "2"
-        ],
-        [
-          "1",
-          "3"
-        ]
-      ]
-    },
+    "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "NIV84": {
+  "CatholicEsther16": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -3360,8 +3581,8 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "55",
-        "32": "32",
+        "31": "54",
+        "32": "33",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -3389,8 +3610,8 @@
         "4": "31",
         "5": "23",
         "6": "30",
-        "7": "25",
-        "8": "32",
+        "7": "29",
+        "8": "28",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -3403,8 +3624,8 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "36",
-        "22": "31",
+        "21": "37",
+        "22": "30",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -3430,8 +3651,8 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "19",
-        "6": "30",
+        "5": "26",
+        "6": "23",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -3471,8 +3692,8 @@
         "13": "33",
         "14": "45",
         "15": "41",
-        "16": "50",
-        "17": "13",
+        "16": "35",
+        "17": "28",
         "18": "32",
         "19": "22",
         "20": "29",
@@ -3480,12 +3701,12 @@
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "18",
-        "26": "65",
+        "25": "19",
+        "26": "66",
         "27": "23",
         "28": "31",
-        "29": "40",
-        "30": "16",
+        "29": "39",
+        "30": "17",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -3506,8 +3727,8 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "32",
-        "13": "18",
+        "12": "31",
+        "13": "19",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -3516,14 +3737,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "30",
-        "23": "25",
+        "22": "29",
+        "23": "26",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "68",
-        "29": "29",
+        "28": "69",
+        "29": "28",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -3543,7 +3764,7 @@
         "9": "27",
         "10": "43",
         "11": "23",
-        "12": "8",
+        "12": "24",
         "13": "33",
         "14": "15",
         "15": "63",
@@ -3563,7 +3784,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "31",
+        "5": "32",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -3610,10 +3831,10 @@
         "18": "30",
         "19": "24",
         "20": "42",
-        "21": "15",
+        "21": "16",
         "22": "23",
-        "23": "29",
-        "24": "22",
+        "23": "28",
+        "24": "23",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -3641,8 +3862,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "33",
-        "19": "43",
+        "18": "32",
+        "19": "44",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -3654,8 +3875,8 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "34",
-        "5": "18",
+        "4": "20",
+        "5": "32",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -3672,7 +3893,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "53"
+        "22": "54"
       },
       "KI2": {
         "numChapters": "25",
@@ -3686,8 +3907,8 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "21",
-        "12": "21",
+        "11": "20",
+        "12": "22",
         "13": "25",
         "14": "29",
         "15": "38",
@@ -3708,14 +3929,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "26",
-        "6": "81",
-        "7": "40",
+        "5": "41",
+        "6": "66",
+        "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
         "11": "47",
-        "12": "40",
+        "12": "41",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -3728,15 +3949,16 @@
         "22": "19",
         "23": "32",
         "24": "31",
-        "25": "32",
+        "25": "31",
+        "26": "32",
         "27": "34",
         "28": "21",
         "29": "30"
       },
       "CH2": {
         "numChapters": "36",
-        "1": "17",
-        "2": "18",
+        "1": "18",
+        "2": "17",
         "3": "17",
         "4": "22",
         "5": "14",
@@ -3747,8 +3969,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "22",
-        "14": "15",
+        "13": "23",
+        "14": "14",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -3789,20 +4011,56 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "32",
-        "4": "23",
+        "3": "38",
+        "4": "17",
         "5": "19",
         "6": "19",
         "7": "73",
         "8": "18",
-        "9": "38",
-        "10": "39",
+        "9": "37",
+        "10": "40",
         "11": "36",
         "12": "47",
         "13": "31"
       },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
       "EST": {
-        "numChapters": "10",
+        "numChapters": "16",
         "1": "22",
         "2": "23",
         "3": "15",
@@ -3812,7 +4070,50 @@
         "7": "10",
         "8": "17",
         "9": "32",
-        "10": "3"
+        "10": "13",
+        "11": "12",
+        "12": "6",
+        "13": "18",
+        "14": "19",
+        "15": "19",
+        "16": "24"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "54",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "46",
+        "13": "26",
+        "14": "46",
+        "15": "39"
       },
       "JOB": {
         "numChapters": "42",
@@ -3840,9 +4141,9 @@
         "22": "30",
         "23": "17",
         "24": "25",
-        "25": "6",
+        "25": "14",
         "26": "14",
-        "27": "23",
+        "27": "24",
         "28": "28",
         "29": "25",
         "30": "31",
@@ -3855,34 +4156,34 @@
         "37": "24",
         "38": "41",
         "39": "30",
-        "40": "24",
-        "41": "34",
+        "40": "32",
+        "41": "26",
         "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
         "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "21",
         "10": "18",
         "11": "7",
-        "12": "8",
+        "12": "9",
         "13": "6",
         "14": "7",
         "15": "5",
         "16": "11",
         "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
+        "18": "51",
+        "19": "15",
+        "20": "10",
+        "21": "14",
+        "22": "32",
         "23": "6",
         "24": "10",
         "25": "22",
@@ -3890,69 +4191,69 @@
         "27": "14",
         "28": "9",
         "29": "11",
-        "30": "12",
-        "31": "24",
+        "30": "13",
+        "31": "25",
         "32": "11",
         "33": "22",
-        "34": "22",
+        "34": "23",
         "35": "28",
-        "36": "12",
+        "36": "13",
         "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
+        "38": "23",
+        "39": "14",
+        "40": "18",
+        "41": "14",
+        "42": "12",
         "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
-        "62": "12",
-        "63": "11",
-        "64": "10",
-        "65": "13",
+        "44": "27",
+        "45": "18",
+        "46": "12",
+        "47": "10",
+        "48": "15",
+        "49": "21",
+        "50": "24",
+        "51": "21",
+        "52": "11",
+        "53": "7",
+        "54": "9",
+        "55": "24",
+        "56": "14",
+        "57": "12",
+        "58": "12",
+        "59": "18",
+        "60": "14",
+        "61": "9",
+        "62": "13",
+        "63": "12",
+        "64": "11",
+        "65": "14",
         "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
+        "67": "8",
+        "68": "36",
+        "69": "37",
+        "70": "6",
         "71": "24",
         "72": "20",
         "73": "28",
         "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
+        "75": "11",
+        "76": "13",
+        "77": "21",
         "78": "72",
         "79": "13",
-        "80": "19",
-        "81": "16",
+        "80": "20",
+        "81": "17",
         "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
+        "83": "19",
+        "84": "13",
+        "85": "14",
         "86": "17",
         "87": "7",
-        "88": "18",
-        "89": "52",
+        "88": "19",
+        "89": "53",
         "90": "17",
         "91": "16",
-        "92": "15",
+        "92": "16",
         "93": "5",
         "94": "23",
         "95": "11",
@@ -3961,14 +4262,14 @@
         "98": "9",
         "99": "9",
         "100": "5",
-        "101": "8",
-        "102": "28",
+        "101": "9",
+        "102": "29",
         "103": "22",
         "104": "35",
         "105": "45",
         "106": "48",
         "107": "43",
-        "108": "13",
+        "108": "14",
         "109": "31",
         "110": "7",
         "111": "10",
@@ -4000,9 +4301,9 @@
         "137": "9",
         "138": "8",
         "139": "24",
-        "140": "13",
+        "140": "14",
         "141": "10",
-        "142": "7",
+        "142": "8",
         "143": "12",
         "144": "15",
         "145": "21",
@@ -4051,8 +4352,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "16",
-        "5": "20",
+        "4": "17",
+        "5": "19",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -4066,12 +4367,88 @@
         "1": "17",
         "2": "17",
         "3": "11",
-        "4": "16",
+        "4": "17",
         "5": "16",
-        "6": "13",
-        "7": "13",
+        "6": "12",
+        "7": "14",
         "8": "14"
       },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "17",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "32",
+        "21": "28",
+        "22": "27",
+        "23": "28",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "31",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "27",
+        "42": "25",
+        "43": "35",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
       "ISA": {
         "numChapters": "66",
         "1": "31",
@@ -4081,7 +4458,7 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "22",
+        "8": "24",
         "9": "21",
         "10": "34",
         "11": "16",
@@ -4137,7 +4514,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "12",
+        "64": "11",
         "65": "25",
         "66": "24"
       },
@@ -4150,8 +4527,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "22",
-        "9": "26",
+        "8": "23",
+        "9": "25",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -4204,6 +4581,15 @@
         "4": "22",
         "5": "22"
       },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9",
+        "6": "72"
+      },
       "EZE": {
         "numChapters": "48",
         "1": "28",
@@ -4225,8 +4611,8 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "49",
-        "21": "32",
+        "20": "44",
+        "21": "37",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -4256,24 +4642,26 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "12",
+        "numChapters": "14",
         "1": "21",
         "2": "49",
-        "3": "30",
-        "4": "37",
-        "5": "31",
-        "6": "28",
+        "3": "100",
+        "4": "34",
+        "5": "30",
+        "6": "29",
         "7": "28",
         "8": "27",
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13"
+        "12": "13",
+        "13": "64",
+        "14": "43"
       },
       "HOS": {
         "numChapters": "14",
-        "1": "11",
-        "2": "23",
+        "1": "9",
+        "2": "25",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -4282,16 +4670,17 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
+        "11": "11",
+        "12": "15",
+        "13": "15",
+        "14": "10"
       },
       "JOL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "20",
-        "2": "32",
-        "3": "21"
+        "2": "27",
+        "3": "5",
+        "4": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -4311,8 +4700,8 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "17",
-        "2": "10",
+        "1": "16",
+        "2": "11",
         "3": "10",
         "4": "11"
       },
@@ -4321,15 +4710,15 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "13",
-        "5": "15",
+        "4": "14",
+        "5": "14",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "15",
-        "2": "13",
+        "1": "14",
+        "2": "14",
         "3": "19"
       },
       "HAB": {
@@ -4351,10 +4740,10 @@
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "21",
-        "2": "13",
+        "1": "17",
+        "2": "17",
         "3": "10",
-        "4": "14",
+        "4": "16",
         "5": "11",
         "6": "15",
         "7": "14",
@@ -4367,11 +4756,10 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "14",
         "2": "17",
-        "3": "18",
-        "4": "6"
+        "3": "24"
       },
       "MAT": {
         "numChapters": "28",
@@ -4485,7 +4873,7 @@
         "7": "60",
         "8": "40",
         "9": "43",
-        "10": "48",
+        "10": "49",
         "11": "30",
         "12": "25",
         "13": "52",
@@ -4557,7 +4945,7 @@
         "10": "18",
         "11": "33",
         "12": "21",
-        "13": "14"
+        "13": "13"
       },
       "GAL": {
         "numChapters": "6",
@@ -4683,7 +5071,7 @@
       },
       "JN3": {
         "numChapters": "1",
-        "1": "14"
+        "1": "15"
       },
       "JDE": {
         "numChapters": "1",
@@ -4702,7 +5090,7 @@
         "9": "21",
         "10": "11",
         "11": "19",
-        "12": "17",
+        "12": "18",
         "13": "18",
         "14": "20",
         "15": "8",
@@ -4715,392 +5103,11 @@
         "22": "21"
       }
     },
-    "omitted": {
-      "EZR": [
-        [
-          "1",
-          "10"
-        ],
-        [
-          "2",
-          "3"
-        ],
-        [
-          "2",
-          "4"
-        ],
-        [
-          "2",
-          "5"
-        ],
-        [
-          "2",
-          "6"
-        ],
-        [
-          "2",
-          "7"
-        ],
-        [
-          "2",
-          "8"
-        ],
-        [
-          "2",
-          "9"
-        ],
-        [
-          "2",
-          "10"
-        ],
-        [
-          "2",
-          "11"
-        ],
-        [
-          "2",
-          "12"
-        ],
-        [
-          "2",
-          "13"
-        ],
-        [
-          "2",
-          "14"
-        ],
-        [
-          "2",
-          "15"
-        ],
-        [
-          "2",
-          "16"
-        ],
-        [
-          "2",
-          "17"
-        ],
-        [
-          "2",
-          "18"
-        ],
-        [
-          "2",
-          "19"
-        ],
-        [
-          "2",
-          "20"
-        ],
-        [
-          "2",
-          "21"
-        ],
-        [
-          "2",
-          "22"
-        ],
-        [
-          "2",
-          "23"
-        ],
-        [
-          "2",
-          "24"
-        ],
-        [
-          "2",
-          "25"
-        ],
-        [
-          "2",
-          "26"
-        ],
-        [
-          "2",
-          "27"
-        ],
-        [
-          "2",
-          "28"
-        ],
-        [
-          "2",
-          "29"
-        ],
-        [
-          "2",
-          "30"
-        ],
-        [
-          "2",
-          "31"
-        ],
-        [
-          "2",
-          "32"
-        ],
-        [
-          "2",
-          "33"
-        ],
-        [
-          "2",
-          "34"
-        ],
-        [
-          "2",
-          "35"
-        ],
-        [
-          "2",
-          "37"
-        ],
-        [
-          "2",
-          "38"
-        ],
-        [
-          "2",
-          "39"
-        ],
-        [
-          "2",
-          "58"
-        ],
-        [
-          "2",
-          "60"
-        ]
-      ],
-      "NEH": [
-        [
-          "7",
-          "8"
-        ],
-        [
-          "7",
-          "9"
-        ],
-        [
-          "7",
-          "10"
-        ],
-        [
-          "7",
-          "11"
-        ],
-        [
-          "7",
-          "12"
-        ],
-        [
-          "7",
-          "13"
-        ],
-        [
-          "7",
-          "14"
-        ],
-        [
-          "7",
-          "15"
-        ],
-        [
-          "7",
-          "16"
-        ],
-        [
-          "7",
-          "17"
-        ],
-        [
-          "7",
-          "18"
-        ],
-        [
-          "7",
-          "19"
-        ],
-        [
-          "7",
-          "20"
-        ],
-        [
-          "7",
-          "21"
-        ],
-        [
-          "7",
-          "22"
-        ],
-        [
-          "7",
-          "23"
-        ],
-        [
-          "7",
-          "24"
-        ],
-        [
-          "7",
-          "25"
-        ],
-        [
-          "7",
-          "26"
-        ],
-        [
-          "7",
-          "27"
-        ],
-        [
-          "7",
-          "28"
-        ],
-        [
-          "7",
-          "29"
-        ],
-        [
-          "7",
-          "30"
-        ],
-        [
-          "7",
-          "31"
-        ],
-        [
-          "7",
-          "32"
-        ],
-        [
-          "7",
-          "33"
-        ],
-        [
-          "7",
-          "34"
-        ],
-        [
-          "7",
-          "35"
-        ],
-        [
-          "7",
-          "36"
-        ],
-        [
-          "7",
-          "37"
-        ],
-        [
-          "7",
-          "38"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "62"
-        ]
-      ],
-      "MAT": [
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "11"
-        ],
-        [
-          "23",
-          "14"
-        ]
-      ],
-      "MRK": [
-        [
-          "7",
-          "16"
-        ],
-        [
-          "9",
-          "44"
-        ],
-        [
-          "9",
-          "46"
-        ],
-        [
-          "11",
-          "26"
-        ],
-        [
-          "15",
-          "28"
-        ]
-      ],
-      "LUK": [
-        [
-          "17",
-          "36"
-        ],
-        [
-          "23",
-          "17"
-        ]
-      ],
-      "JHN": [
-        [
-          "5",
-          "4"
-        ]
-      ],
-      "ACT": [
-        [
-          "8",
-          "37"
-        ],
-        [
-          "15",
-          "34"
-        ],
-        [
-          "24",
-          "7"
-        ],
-        [
-          "28",
-          "29"
-        ]
-      ],
-      "ROM": [
-        [
-          "16",
-          "24"
-        ]
-      ]
-    },
+    "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "KJV": {
+  "Cebuano_BUGV": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -5572,7 +5579,7 @@
         "8": "18",
         "9": "38",
         "10": "39",
-        "11": "36",
+        "11": "35",
         "12": "47",
         "13": "31"
       },
@@ -5748,11 +5755,11 @@
         "110": "7",
         "111": "10",
         "112": "10",
-        "113": "9",
+        "113": "10",
         "114": "8",
         "115": "18",
         "116": "19",
-        "117": "2",
+        "117": "3",
         "118": "29",
         "119": "176",
         "120": "7",
@@ -5796,7 +5803,7 @@
         "5": "23",
         "6": "35",
         "7": "27",
-        "8": "36",
+        "8": "37",
         "9": "18",
         "10": "32",
         "11": "31",
@@ -5997,7 +6004,7 @@
         "14": "23",
         "15": "8",
         "16": "63",
-        "17": "24",
+        "17": "8",
         "18": "32",
         "19": "14",
         "20": "49",
@@ -6011,7 +6018,7 @@
         "28": "26",
         "29": "21",
         "30": "26",
-        "31": "18",
+        "31": "17",
         "32": "32",
         "33": "33",
         "34": "31",
@@ -6148,230 +6155,6 @@
         "3": "18",
         "4": "6"
       },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "70",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "22",
-        "6": "17",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "12",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "13",
-        "16": "25"
-      },
-      "ESA": {
-        "numChapters": "16",
-        "1": "1",
-        "2": "1",
-        "3": "1",
-        "4": "1",
-        "5": "1",
-        "6": "1",
-        "7": "1",
-        "8": "1",
-        "9": "1",
-        "10": "13",
-        "11": "12",
-        "12": "6",
-        "13": "18",
-        "14": "19",
-        "15": "16",
-        "16": "24"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "32",
-        "21": "28",
-        "22": "27",
-        "23": "28",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "31",
-        "34": "26",
-        "35": "20",
-        "36": "26",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "24",
-        "42": "25",
-        "43": "33",
-        "44": "22",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9",
-        "6": "73"
-      },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "1"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
       "MAT": {
         "numChapters": "28",
         "1": "25",
@@ -6714,11 +6497,160 @@
         "22": "21"
       }
     },
-    "omitted": {},
+    "omitted": {
+      "LEV": [
+        [
+          "16",
+          "23"
+        ],
+        [
+          "19",
+          "4"
+        ]
+      ],
+      "NUM": [
+        [
+          "18",
+          "21"
+        ],
+        [
+          "26",
+          "58"
+        ]
+      ],
+      "KI2": [
+        [
+          "19",
+          "13"
+        ]
+      ],
+      "JER": [
+        [
+          "31",
+          "39"
+        ],
+        [
+          "50",
+          "3"
+        ],
+        [
+          "50",
+          "4"
+        ],
+        [
+          "50",
+          "5"
+        ],
+        [
+          "50",
+          "6"
+        ],
+        [
+          "50",
+          "7"
+        ],
+        [
+          "50",
+          "8"
+        ],
+        [
+          "50",
+          "9"
+        ],
+        [
+          "50",
+          "10"
+        ],
+        [
+          "50",
+          "11"
+        ],
+        [
+          "50",
+          "12"
+        ],
+        [
+          "50",
+          "13"
+        ],
+        [
+          "50",
+          "14"
+        ],
+        [
+          "50",
+          "15"
+        ],
+        [
+          "50",
+          "16"
+        ],
+        [
+          "50",
+          "17"
+        ],
+        [
+          "50",
+          "18"
+        ],
+        [
+          "50",
+          "19"
+        ],
+        [
+          "50",
+          "20"
+        ],
+        [
+          "50",
+          "21"
+        ],
+        [
+          "50",
+          "22"
+        ],
+        [
+          "50",
+          "23"
+        ],
+        [
+          "50",
+          "24"
+        ],
+        [
+          "50",
+          "25"
+        ],
+        [
+          "50",
+          "26"
+        ],
+        [
+          "50",
+          "27"
+        ],
+        [
+          "50",
+          "28"
+        ]
+      ],
+      "EZE": [
+        [
+          "34",
+          "24"
+        ]
+      ],
+      "AMO": [
+        [
+          "7",
+          "4"
+        ]
+      ]
+    },
     "combined": {},
     "reordered": {}
   },
-  "NLT96": {
+  "DutchTraditional": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -6779,8 +6711,8 @@
         "2": "25",
         "3": "22",
         "4": "31",
-        "5": "23",
-        "6": "30",
+        "5": "24",
+        "6": "29",
         "7": "25",
         "8": "32",
         "9": "35",
@@ -7001,11 +6933,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "42",
+        "20": "43",
         "21": "15",
         "22": "23",
-        "23": "29",
-        "24": "22",
+        "23": "28",
+        "24": "23",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -7064,7 +6996,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "53"
+        "22": "54"
       },
       "KI2": {
         "numChapters": "25",
@@ -7140,7 +7072,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "15",
+        "13": "22",
+        "14": "15",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -7154,11 +7087,11 @@
         "25": "28",
         "26": "23",
         "27": "9",
-        "28": "26",
+        "28": "27",
         "29": "36",
         "30": "27",
         "31": "21",
-        "32": "32",
+        "32": "33",
         "33": "25",
         "34": "33",
         "35": "27",
@@ -7185,8 +7118,8 @@
         "4": "23",
         "5": "19",
         "6": "19",
-        "7": "73",
-        "8": "18",
+        "7": "72",
+        "8": "19",
         "9": "38",
         "10": "39",
         "11": "36",
@@ -7245,36 +7178,36 @@
         "35": "16",
         "36": "33",
         "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
+        "38": "38",
+        "39": "38",
+        "40": "28",
+        "41": "25",
         "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
         "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "21",
         "10": "18",
         "11": "7",
-        "12": "8",
+        "12": "9",
         "13": "6",
         "14": "7",
         "15": "5",
         "16": "11",
         "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
+        "18": "51",
+        "19": "15",
+        "20": "10",
+        "21": "14",
+        "22": "32",
         "23": "6",
         "24": "10",
         "25": "22",
@@ -7282,69 +7215,69 @@
         "27": "14",
         "28": "9",
         "29": "11",
-        "30": "12",
-        "31": "24",
+        "30": "13",
+        "31": "25",
         "32": "11",
         "33": "22",
-        "34": "22",
+        "34": "23",
         "35": "28",
-        "36": "12",
+        "36": "13",
         "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
+        "38": "23",
+        "39": "14",
+        "40": "18",
+        "41": "14",
+        "42": "12",
         "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
+        "44": "27",
+        "45": "18",
+        "46": "12",
+        "47": "10",
+        "48": "15",
+        "49": "21",
         "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
-        "62": "12",
-        "63": "11",
-        "64": "10",
-        "65": "13",
+        "51": "21",
+        "52": "11",
+        "53": "7",
+        "54": "9",
+        "55": "24",
+        "56": "14",
+        "57": "12",
+        "58": "12",
+        "59": "18",
+        "60": "14",
+        "61": "9",
+        "62": "13",
+        "63": "12",
+        "64": "11",
+        "65": "14",
         "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
+        "67": "8",
+        "68": "36",
+        "69": "37",
+        "70": "6",
         "71": "24",
         "72": "20",
         "73": "28",
         "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
+        "75": "11",
+        "76": "13",
+        "77": "21",
         "78": "72",
         "79": "13",
-        "80": "19",
-        "81": "16",
+        "80": "20",
+        "81": "17",
         "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
+        "83": "19",
+        "84": "13",
+        "85": "14",
         "86": "17",
         "87": "7",
-        "88": "18",
-        "89": "52",
+        "88": "19",
+        "89": "53",
         "90": "17",
         "91": "16",
-        "92": "15",
+        "92": "16",
         "93": "5",
         "94": "23",
         "95": "11",
@@ -7354,13 +7287,13 @@
         "99": "9",
         "100": "5",
         "101": "8",
-        "102": "28",
+        "102": "29",
         "103": "22",
         "104": "35",
         "105": "45",
         "106": "48",
         "107": "43",
-        "108": "13",
+        "108": "14",
         "109": "31",
         "110": "7",
         "111": "10",
@@ -7392,9 +7325,9 @@
         "137": "9",
         "138": "8",
         "139": "24",
-        "140": "13",
+        "140": "14",
         "141": "10",
-        "142": "7",
+        "142": "8",
         "143": "12",
         "144": "15",
         "145": "21",
@@ -7443,8 +7376,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "16",
-        "5": "20",
+        "4": "17",
+        "5": "19",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -7473,8 +7406,8 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "22",
-        "9": "21",
+        "8": "23",
+        "9": "20",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -7653,8 +7586,8 @@
         "2": "49",
         "3": "30",
         "4": "37",
-        "5": "31",
-        "6": "28",
+        "5": "30",
+        "6": "29",
         "7": "28",
         "8": "27",
         "9": "27",
@@ -7664,8 +7597,8 @@
       },
       "HOS": {
         "numChapters": "14",
-        "1": "11",
-        "2": "23",
+        "1": "12",
+        "2": "22",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -7674,10 +7607,10 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
+        "11": "11",
+        "12": "15",
+        "13": "15",
+        "14": "10"
       },
       "JOL": {
         "numChapters": "3",
@@ -7713,8 +7646,8 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "13",
-        "5": "15",
+        "4": "14",
+        "5": "14",
         "6": "16",
         "7": "20"
       },
@@ -7738,8 +7671,8 @@
       },
       "HAG": {
         "numChapters": "2",
-        "1": "15",
-        "2": "23"
+        "1": "14",
+        "2": "24"
       },
       "ZEC": {
         "numChapters": "14",
@@ -7844,7 +7777,7 @@
       },
       "JHN": {
         "numChapters": "21",
-        "1": "51",
+        "1": "52",
         "2": "25",
         "3": "36",
         "4": "54",
@@ -7886,7 +7819,7 @@
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "41",
+        "19": "40",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -7905,7 +7838,7 @@
         "4": "25",
         "5": "21",
         "6": "23",
-        "7": "25",
+        "7": "26",
         "8": "39",
         "9": "33",
         "10": "21",
@@ -8107,402 +8040,11 @@
         "22": "21"
       }
     },
-    "omitted": {
-      "EZR": [
-        [
-          "1",
-          "10"
-        ],
-        [
-          "2",
-          "3"
-        ],
-        [
-          "2",
-          "4"
-        ],
-        [
-          "2",
-          "5"
-        ],
-        [
-          "2",
-          "6"
-        ],
-        [
-          "2",
-          "7"
-        ],
-        [
-          "2",
-          "8"
-        ],
-        [
-          "2",
-          "9"
-        ],
-        [
-          "2",
-          "10"
-        ],
-        [
-          "2",
-          "11"
-        ],
-        [
-          "2",
-          "12"
-        ],
-        [
-          "2",
-          "13"
-        ],
-        [
-          "2",
-          "14"
-        ],
-        [
-          "2",
-          "15"
-        ],
-        [
-          "2",
-          "16"
-        ],
-        [
-          "2",
-          "17"
-        ],
-        [
-          "2",
-          "18"
-        ],
-        [
-          "2",
-          "19"
-        ],
-        [
-          "2",
-          "20"
-        ],
-        [
-          "2",
-          "21"
-        ],
-        [
-          "2",
-          "22"
-        ],
-        [
-          "2",
-          "23"
-        ],
-        [
-          "2",
-          "24"
-        ],
-        [
-          "2",
-          "25"
-        ],
-        [
-          "2",
-          "26"
-        ],
-        [
-          "2",
-          "27"
-        ],
-        [
-          "2",
-          "28"
-        ],
-        [
-          "2",
-          "29"
-        ],
-        [
-          "2",
-          "30"
-        ],
-        [
-          "2",
-          "31"
-        ],
-        [
-          "2",
-          "32"
-        ],
-        [
-          "2",
-          "34"
-        ],
-        [
-          "2",
-          "35"
-        ],
-        [
-          "2",
-          "37"
-        ],
-        [
-          "2",
-          "38"
-        ],
-        [
-          "2",
-          "39"
-        ],
-        [
-          "2",
-          "41"
-        ],
-        [
-          "2",
-          "42"
-        ]
-      ],
-      "NEH": [
-        [
-          "7",
-          "8"
-        ],
-        [
-          "7",
-          "9"
-        ],
-        [
-          "7",
-          "10"
-        ],
-        [
-          "7",
-          "11"
-        ],
-        [
-          "7",
-          "12"
-        ],
-        [
-          "7",
-          "13"
-        ],
-        [
-          "7",
-          "14"
-        ],
-        [
-          "7",
-          "15"
-        ],
-        [
-          "7",
-          "16"
-        ],
-        [
-          "7",
-          "17"
-        ],
-        [
-          "7",
-          "18"
-        ],
-        [
-          "7",
-          "19"
-        ],
-        [
-          "7",
-          "20"
-        ],
-        [
-          "7",
-          "21"
-        ],
-        [
-          "7",
-          "22"
-        ],
-        [
-          "7",
-          "23"
-        ],
-        [
-          "7",
-          "24"
-        ],
-        [
-          "7",
-          "25"
-        ],
-        [
-          "7",
-          "26"
-        ],
-        [
-          "7",
-          "27"
-        ],
-        [
-          "7",
-          "28"
-        ],
-        [
-          "7",
-          "29"
-        ],
-        [
-          "7",
-          "30"
-        ],
-        [
-          "7",
-          "31"
-        ],
-        [
-          "7",
-          "32"
-        ],
-        [
-          "7",
-          "33"
-        ],
-        [
-          "7",
-          "34"
-        ],
-        [
-          "7",
-          "35"
-        ],
-        [
-          "7",
-          "36"
-        ],
-        [
-          "7",
-          "37"
-        ],
-        [
-          "7",
-          "38"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ]
-      ],
-      "MAT": [
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "11"
-        ],
-        [
-          "23",
-          "14"
-        ]
-      ],
-      "MRK": [
-        [
-          "7",
-          "16"
-        ],
-        [
-          "9",
-          "44"
-        ],
-        [
-          "9",
-          "46"
-        ],
-        [
-          "11",
-          "26"
-        ],
-        [
-          "15",
-          "28"
-        ]
-      ],
-      "LUK": [
-        [
-          "17",
-          "36"
-        ],
-        [
-          "23",
-          "17"
-        ]
-      ],
-      "JHN": [
-        [
-          "5",
-          "4"
-        ]
-      ],
-      "ACT": [
-        [
-          "8",
-          "37"
-        ],
-        [
-          "15",
-          "34"
-        ],
-        [
-          "24",
-          "7"
-        ],
-        [
-          "28",
-          "29"
-        ]
-      ],
-      "ROM": [
-        [
-          "16",
-          "24"
-        ]
-      ],
-      "REV": [
-        [
-          "7",
-          "5"
-        ],
-        [
-          "7",
-          "7"
-        ],
-        [
-          "7",
-          "8"
-        ]
-      ]
-    },
+    "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "DutchTraditional": {
+  "GNT92": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -8563,8 +8105,8 @@
         "2": "25",
         "3": "22",
         "4": "31",
-        "5": "24",
-        "6": "29",
+        "5": "23",
+        "6": "30",
         "7": "25",
         "8": "32",
         "9": "35",
@@ -8785,11 +8327,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "43",
+        "20": "42",
         "21": "15",
         "22": "23",
-        "23": "28",
-        "24": "23",
+        "23": "29",
+        "24": "22",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -8848,7 +8390,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "54"
+        "22": "53"
       },
       "KI2": {
         "numChapters": "25",
@@ -8898,7 +8440,7 @@
         "16": "43",
         "17": "27",
         "18": "17",
-        "19": "19",
+        "19": "20",
         "20": "8",
         "21": "30",
         "22": "19",
@@ -8970,8 +8512,8 @@
         "4": "23",
         "5": "19",
         "6": "19",
-        "7": "72",
-        "8": "19",
+        "7": "73",
+        "8": "18",
         "9": "38",
         "10": "39",
         "11": "36",
@@ -9030,36 +8572,36 @@
         "35": "16",
         "36": "33",
         "37": "24",
-        "38": "38",
-        "39": "38",
-        "40": "28",
-        "41": "25",
+        "38": "41",
+        "39": "30",
+        "40": "24",
+        "41": "34",
         "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
         "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "21",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
         "10": "18",
         "11": "7",
-        "12": "9",
+        "12": "8",
         "13": "6",
         "14": "7",
         "15": "5",
         "16": "11",
         "17": "15",
-        "18": "51",
-        "19": "15",
-        "20": "10",
-        "21": "14",
-        "22": "32",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
         "23": "6",
         "24": "10",
         "25": "22",
@@ -9067,69 +8609,69 @@
         "27": "14",
         "28": "9",
         "29": "11",
-        "30": "13",
-        "31": "25",
+        "30": "12",
+        "31": "24",
         "32": "11",
         "33": "22",
-        "34": "23",
+        "34": "22",
         "35": "28",
-        "36": "13",
+        "36": "12",
         "37": "40",
-        "38": "23",
-        "39": "14",
-        "40": "18",
-        "41": "14",
-        "42": "12",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
         "43": "5",
-        "44": "27",
-        "45": "18",
-        "46": "12",
-        "47": "10",
-        "48": "15",
-        "49": "21",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
         "50": "23",
-        "51": "21",
-        "52": "11",
-        "53": "7",
-        "54": "9",
-        "55": "24",
-        "56": "14",
-        "57": "12",
-        "58": "12",
-        "59": "18",
-        "60": "14",
-        "61": "9",
-        "62": "13",
-        "63": "12",
-        "64": "11",
-        "65": "14",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
+        "62": "12",
+        "63": "11",
+        "64": "10",
+        "65": "13",
         "66": "20",
-        "67": "8",
-        "68": "36",
-        "69": "37",
-        "70": "6",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
         "71": "24",
         "72": "20",
         "73": "28",
         "74": "23",
-        "75": "11",
-        "76": "13",
-        "77": "21",
+        "75": "10",
+        "76": "12",
+        "77": "20",
         "78": "72",
         "79": "13",
-        "80": "20",
-        "81": "17",
+        "80": "19",
+        "81": "16",
         "82": "8",
-        "83": "19",
-        "84": "13",
-        "85": "14",
+        "83": "18",
+        "84": "12",
+        "85": "13",
         "86": "17",
         "87": "7",
-        "88": "19",
-        "89": "53",
+        "88": "18",
+        "89": "52",
         "90": "17",
         "91": "16",
-        "92": "16",
+        "92": "15",
         "93": "5",
         "94": "23",
         "95": "11",
@@ -9139,13 +8681,13 @@
         "99": "9",
         "100": "5",
         "101": "8",
-        "102": "29",
+        "102": "28",
         "103": "22",
         "104": "35",
         "105": "45",
         "106": "48",
         "107": "43",
-        "108": "14",
+        "108": "13",
         "109": "31",
         "110": "7",
         "111": "10",
@@ -9177,9 +8719,9 @@
         "137": "9",
         "138": "8",
         "139": "24",
-        "140": "14",
+        "140": "13",
         "141": "10",
-        "142": "8",
+        "142": "7",
         "143": "12",
         "144": "15",
         "145": "21",
@@ -9228,8 +8770,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "17",
-        "5": "19",
+        "4": "16",
+        "5": "20",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -9258,8 +8800,8 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "23",
-        "9": "20",
+        "8": "22",
+        "9": "21",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -9288,7 +8830,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "22",
+        "38": "20",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -9438,8 +8980,8 @@
         "2": "49",
         "3": "30",
         "4": "37",
-        "5": "30",
-        "6": "29",
+        "5": "31",
+        "6": "28",
         "7": "28",
         "8": "27",
         "9": "27",
@@ -9449,8 +8991,8 @@
       },
       "HOS": {
         "numChapters": "14",
-        "1": "12",
-        "2": "22",
+        "1": "11",
+        "2": "23",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -9459,10 +9001,10 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "11",
-        "12": "15",
-        "13": "15",
-        "14": "10"
+        "11": "12",
+        "12": "14",
+        "13": "16",
+        "14": "9"
       },
       "JOL": {
         "numChapters": "3",
@@ -9498,8 +9040,8 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "14",
-        "5": "14",
+        "4": "13",
+        "5": "15",
         "6": "16",
         "7": "20"
       },
@@ -9523,15 +9065,15 @@
       },
       "HAG": {
         "numChapters": "2",
-        "1": "14",
-        "2": "24"
+        "1": "15",
+        "2": "23"
       },
       "ZEC": {
         "numChapters": "14",
         "1": "21",
         "2": "13",
         "3": "10",
-        "4": "14",
+        "4": "10",
         "5": "11",
         "6": "15",
         "7": "14",
@@ -9598,7 +9140,7 @@
         "13": "37",
         "14": "72",
         "15": "47",
-        "16": "20"
+        "16": "10"
       },
       "LUK": {
         "numChapters": "24",
@@ -9629,7 +9171,7 @@
       },
       "JHN": {
         "numChapters": "21",
-        "1": "52",
+        "1": "51",
         "2": "25",
         "3": "36",
         "4": "54",
@@ -9671,7 +9213,7 @@
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "40",
+        "19": "41",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -9690,7 +9232,7 @@
         "4": "25",
         "5": "21",
         "6": "23",
-        "7": "26",
+        "7": "25",
         "8": "39",
         "9": "33",
         "10": "21",
@@ -9890,18730 +9432,819 @@
         "20": "15",
         "21": "27",
         "22": "21"
-      }
-    },
-    "omitted": {},
-    "combined": {},
-    "reordered": {}
-  },
-  "Septuagint": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "21",
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
         "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "54",
-        "32": "33",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
       },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "29",
-        "8": "28",
-        "9": "35",
-        "10": "29",
-        "11": "10",
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
         "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "37",
-        "22": "30",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "21",
-        "38": "27",
-        "39": "23",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "26",
-        "6": "23",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
       },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "26",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
-        "14": "45",
-        "15": "41",
-        "16": "35",
-        "17": "28",
+      "ESA": {
+        "numChapters": "21",
+        "1": "11",
+        "2": "17",
+        "3": "22",
+        "4": "23",
+        "5": "13",
+        "6": "7",
+        "7": "15",
+        "8": "17",
+        "9": "11",
+        "10": "30",
+        "11": "16",
+        "12": "14",
+        "13": "14",
+        "14": "10",
+        "15": "12",
+        "16": "24",
+        "17": "17",
         "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "39",
-        "30": "17",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
+        "19": "3",
+        "20": "10",
+        "21": "0"
       },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "31",
-        "13": "19",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "29",
-        "23": "26",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "69",
-        "29": "28",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
+      "LJE": {
+        "numChapters": "1",
+        "1": "73"
       },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "29",
-        "9": "27",
-        "10": "42",
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "35",
+        "9": "14",
+        "10": "23",
         "11": "23",
-        "12": "24",
-        "13": "32",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "13",
+        "16": "25"
       },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
         "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
         "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
+        "16": "30",
+        "17": "32",
+        "18": "33",
         "19": "30",
-        "20": "48",
-        "21": "25"
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "31",
+        "34": "26",
+        "35": "20",
+        "36": "26",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "23",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
       },
-      "RUT": {
-        "numChapters": "4",
+      "TOB": {
+        "numChapters": "14",
         "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "21",
+        "6": "17",
+        "7": "18",
+        "8": "21",
+        "9": "6",
+        "10": "12",
+        "11": "18",
+        "12": "22",
+        "13": "18",
+        "14": "15"
       },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "54",
-        "18": "29",
-        "19": "24",
-        "20": "42",
-        "21": "16",
-        "22": "23",
-        "23": "28",
-        "24": "23",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "20",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
       },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
         "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "32",
-        "19": "44",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "19",
-        "5": "32",
-        "6": "36",
-        "7": "50",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "29",
-        "21": "43",
-        "22": "54"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "20",
-        "12": "22",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
-      },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "41",
-        "6": "66",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "41",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
-      },
-      "CH2": {
-        "numChapters": "36",
-        "1": "18",
-        "2": "17",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "23",
-        "14": "14",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
-      },
-      "EZR": {
-        "numChapters": "23",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44",
-        "11": "11",
-        "12": "20",
-        "13": "32",
-        "14": "23",
-        "15": "19",
-        "16": "19",
-        "17": "73",
-        "18": "18",
-        "19": "38",
-        "20": "39",
-        "21": "36",
-        "22": "47",
-        "23": "31"
-      },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "32",
-        "4": "23",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "38",
-        "10": "39",
-        "11": "36",
-        "12": "47",
-        "13": "31"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
+        "3": "40",
+        "4": "50",
         "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "22",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "32",
-        "41": "26",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "151",
-        "1": "6",
-        "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
-        "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
-        "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
-        "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
-        "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
-        "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
-        "148": "14",
-        "149": "9",
-        "150": "6",
-        "151": "7"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
+        "6": "31",
+        "7": "42",
         "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "22",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
-      },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "17",
-        "5": "19",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "17",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "16",
-        "6": "12",
-        "7": "14",
-        "8": "14"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "21",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "23",
-        "9": "20",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "11",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "11",
-        "65": "25",
-        "66": "24"
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
       },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "23",
-        "9": "25",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "20",
-        "26": "28",
-        "27": "46",
-        "28": "64",
-        "29": "7",
-        "30": "33",
-        "31": "44",
-        "32": "38",
-        "33": "24",
-        "34": "22",
-        "35": "17",
-        "36": "32",
-        "37": "24",
-        "38": "40",
-        "39": "44",
-        "40": "13",
-        "41": "22",
-        "42": "19",
-        "43": "32",
-        "44": "21",
-        "45": "28",
-        "46": "18",
-        "47": "16",
-        "48": "18",
-        "49": "22",
-        "50": "13",
-        "51": "35",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "44",
-        "21": "37",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "30",
-        "6": "29",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "9",
-        "2": "25",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "11",
-        "12": "15",
-        "13": "15",
-        "14": "10"
-      },
-      "JOL": {
-        "numChapters": "4",
-        "1": "20",
-        "2": "27",
-        "3": "5",
-        "4": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "16",
-        "2": "11",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "14",
-        "5": "14",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "14",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
+      "PAZ": {
         "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "17",
-        "2": "17",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "17",
-        "3": "24"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "40",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "13"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
-      "ESG": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "20",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "26",
-        "35": "24",
-        "36": "27",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "27",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "72"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "63"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
-      "MA3": {
-        "numChapters": "7",
-        "1": "29",
-        "2": "33",
-        "3": "30",
-        "4": "21",
-        "5": "51",
-        "6": "41",
-        "7": "23"
-      },
-      "MA4": {
-        "numChapters": "18",
-        "1": "35",
-        "2": "24",
-        "3": "21",
-        "4": "26",
-        "5": "38",
-        "6": "35",
-        "7": "23",
-        "8": "29",
-        "9": "32",
-        "10": "21",
-        "11": "27",
-        "12": "19",
-        "13": "27",
-        "14": "20",
-        "15": "32",
-        "16": "25",
-        "17": "24",
-        "18": "24"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "55",
-        "2": "26",
-        "3": "24",
-        "4": "63",
-        "5": "71",
-        "6": "33",
-        "7": "15",
-        "8": "92",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "PS2": {
-        "numChapters": "1",
-        "1": "7"
-      },
-      "ODE": {
-        "numChapters": "14",
-        "1": "19",
-        "2": "43",
-        "3": "10",
-        "4": "19",
-        "5": "12",
-        "6": "8",
-        "7": "20",
-        "8": "37",
-        "9": "22",
-        "10": "9",
-        "11": "11",
-        "12": "15",
-        "13": "4",
-        "14": "46"
-      },
-      "PSS": {
-        "numChapters": "18",
-        "1": "8",
-        "2": "37",
-        "3": "12",
-        "4": "25",
-        "5": "19",
-        "6": "6",
-        "7": "10",
-        "8": "34",
-        "9": "11",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "12",
-        "14": "10",
-        "15": "13",
-        "16": "15",
-        "17": "46",
-        "18": "12"
-      },
-      "DNG": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
-      },
-      "PS3": {
-        "numChapters": "4",
-        "1": "17",
-        "2": "20",
-        "3": "6",
-        "4": "6"
-      },
-      "BA2": {
-        "numChapters": "77",
-        "1": "5",
-        "2": "2",
-        "3": "9",
-        "4": "7",
-        "5": "7",
-        "6": "10",
-        "7": "2",
-        "8": "5",
-        "9": "1",
-        "10": "19",
-        "11": "7",
-        "12": "5",
-        "13": "12",
-        "14": "19",
-        "15": "8",
-        "16": "1",
-        "17": "4",
-        "18": "2",
-        "19": "8",
-        "20": "6",
-        "21": "26",
-        "22": "8",
-        "23": "7",
-        "24": "4",
-        "25": "4",
-        "26": "1",
-        "27": "15",
-        "28": "7",
-        "29": "8",
-        "30": "5",
-        "31": "5",
-        "32": "9",
-        "33": "3",
-        "34": "1",
-        "35": "5",
-        "36": "10",
-        "37": "1",
-        "38": "4",
-        "39": "8",
-        "40": "4",
-        "41": "6",
-        "42": "8",
-        "43": "3",
-        "44": "15",
-        "45": "2",
-        "46": "7",
-        "47": "2",
-        "48": "50",
-        "49": "3",
-        "50": "4",
-        "51": "16",
-        "52": "8",
-        "53": "12",
-        "54": "22",
-        "55": "8",
-        "56": "16",
-        "57": "3",
-        "58": "2",
-        "59": "12",
-        "60": "2",
-        "61": "8",
-        "62": "8",
-        "63": "11",
-        "64": "10",
-        "65": "2",
-        "66": "8",
-        "67": "9",
-        "68": "8",
-        "69": "5",
-        "70": "10",
-        "71": "3",
-        "72": "6",
-        "73": "7",
-        "74": "4",
-        "75": "8",
-        "76": "5",
-        "77": "26"
-      },
-      "LBA": {
-        "numChapters": "9",
-        "78": "7",
-        "79": "3",
-        "80": "7",
-        "81": "4",
-        "82": "9",
-        "83": "23",
-        "84": "11",
-        "85": "15",
-        "86": "3"
-      },
-      "JUB": {
-        "numChapters": "34",
-        "1": "26",
-        "2": "17",
-        "3": "19",
-        "4": "24",
-        "5": "36",
-        "6": "34",
-        "7": "37",
-        "8": "40",
-        "9": "27",
-        "10": "48",
-        "11": "39",
-        "12": "56",
-        "13": "34",
-        "14": "55",
-        "15": "20",
-        "16": "28",
-        "17": "30",
-        "18": "31",
-        "19": "59",
-        "20": "66",
-        "21": "30",
-        "22": "38",
-        "23": "59",
-        "24": "30",
-        "25": "50",
-        "26": "48",
-        "27": "37",
-        "28": "38",
-        "29": "27",
-        "30": "29",
-        "31": "31",
-        "32": "24",
-        "33": "30",
-        "34": "20"
-      },
-      "ENO": {
-        "numChapters": "42",
-        "1": "28",
-        "2": "42",
-        "3": "30",
-        "4": "88",
-        "5": "40",
-        "6": "42",
-        "7": "39",
-        "8": "46",
-        "9": "42",
-        "10": "16",
-        "11": "19",
-        "12": "40",
-        "13": "34",
-        "14": "35",
-        "15": "45",
-        "16": "41",
-        "17": "69",
-        "18": "42",
-        "19": "29",
-        "20": "53",
-        "21": "57",
-        "22": "14",
-        "23": "26",
-        "24": "16",
-        "25": "30",
-        "26": "37",
-        "27": "21",
-        "28": "34",
-        "29": "28",
-        "30": "23",
-        "31": "29",
-        "32": "82",
-        "33": "59",
-        "34": "49",
-        "35": "36",
-        "36": "30",
-        "37": "34",
-        "38": "36",
-        "39": "24",
-        "40": "40",
-        "41": "22",
-        "42": "16"
-      },
-      "MQ1": {
-        "numChapters": "36",
-        "1": "28",
-        "2": "28",
-        "3": "38",
-        "4": "37",
-        "5": "39",
-        "6": "38",
-        "7": "33",
-        "8": "35",
-        "9": "10",
-        "10": "8",
-        "11": "8",
-        "12": "44",
-        "13": "27",
-        "14": "23",
-        "15": "20",
-        "16": "9",
-        "17": "8",
-        "18": "12",
-        "19": "17",
-        "20": "4",
-        "21": "31",
-        "22": "11",
-        "23": "7",
-        "24": "22",
-        "25": "18",
-        "26": "5",
-        "27": "20",
-        "28": "49",
-        "29": "17",
-        "30": "16",
-        "31": "7",
-        "32": "4",
-        "33": "11",
-        "34": "18",
-        "35": "8",
-        "36": "46"
-      },
-      "MQ2": {
-        "numChapters": "20",
-        "1": "13",
-        "2": "11",
-        "3": "29",
-        "4": "32",
-        "5": "18",
-        "6": "24",
-        "7": "9",
-        "8": "24",
-        "9": "27",
-        "10": "28",
-        "11": "25",
-        "12": "15",
-        "13": "14",
-        "14": "36",
-        "15": "21",
-        "16": "15",
-        "17": "12",
-        "18": "14",
-        "19": "15",
-        "20": "14"
-      },
-      "MQ3": {
-        "numChapters": "10",
-        "1": "24",
-        "2": "23",
-        "3": "11",
-        "4": "36",
-        "5": "16",
-        "6": "16",
-        "7": "5",
-        "8": "12",
-        "9": "36",
-        "10": "29"
-      },
-      "REP": {
-        "numChapters": "6",
-        "1": "28",
-        "2": "28",
-        "3": "27",
-        "4": "28",
-        "5": "27",
-        "6": "22"
-      },
-      "BA4": {
-        "numChapters": "5",
-        "1": "30",
-        "2": "29",
-        "3": "30",
-        "4": "33",
-        "5": "62"
-      }
-    },
-    "omitted": {},
-    "combined": {},
-    "reordered": {}
-  },
-  "REB89": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "55",
-        "32": "32",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "25",
-        "8": "32",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "36",
-        "22": "31",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "29",
-        "38": "31",
-        "39": "43",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "19",
-        "6": "30",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
-      },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "27",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
-        "14": "45",
-        "15": "41",
-        "16": "50",
-        "17": "13",
-        "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "40",
-        "30": "16",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
-      },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "32",
-        "13": "18",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "30",
-        "23": "25",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "68",
-        "29": "29",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
-      },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "35",
-        "9": "27",
-        "10": "43",
-        "11": "23",
-        "12": "24",
-        "13": "33",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
-      },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "25"
-      },
-      "RUT": {
-        "numChapters": "4",
-        "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
-      },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "58",
-        "18": "30",
-        "19": "24",
-        "20": "42",
-        "21": "15",
-        "22": "23",
-        "23": "29",
-        "24": "22",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
-      },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "33",
-        "19": "43",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "34",
-        "5": "18",
-        "6": "38",
-        "7": "51",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "43",
-        "21": "29",
-        "22": "53"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "21",
-        "12": "21",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
-      },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "26",
-        "6": "81",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "40",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
-      },
-      "CH2": {
-        "numChapters": "36",
-        "1": "17",
-        "2": "18",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "22",
-        "14": "15",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
-      },
-      "EZR": {
-        "numChapters": "10",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44"
-      },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "32",
-        "4": "23",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "38",
-        "10": "39",
-        "11": "36",
-        "12": "47",
-        "13": "31"
-      },
-      "EST": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
-        "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "27",
-        "14": "22",
-        "15": "35",
-        "16": "22",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "20",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
-        "10": "18",
-        "11": "7",
-        "12": "8",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "12",
-        "31": "24",
-        "32": "11",
-        "33": "22",
-        "34": "22",
-        "35": "28",
-        "36": "12",
-        "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
-        "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
-        "62": "12",
-        "63": "11",
-        "64": "10",
-        "65": "13",
-        "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
-        "78": "72",
-        "79": "13",
-        "80": "19",
-        "81": "16",
-        "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
-        "86": "17",
-        "87": "7",
-        "88": "18",
-        "89": "52",
-        "90": "17",
-        "91": "16",
-        "92": "15",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
-        "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "28",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "13",
-        "109": "31",
-        "110": "7",
-        "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
-        "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
-        "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "13",
-        "141": "10",
-        "142": "7",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
-        "148": "14",
-        "149": "9",
-        "150": "6"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
-        "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "24",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
-      },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "16",
-        "5": "20",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "17",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "16",
-        "6": "13",
-        "7": "13",
-        "8": "14"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "22",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "22",
-        "9": "21",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "20",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "12",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "12",
-        "65": "25",
-        "66": "24"
-      },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "22",
-        "9": "26",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
-        "34": "22",
-        "35": "19",
-        "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "49",
-        "21": "32",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "30",
-        "4": "37",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "11",
-        "2": "23",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "17",
-        "2": "10",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "15",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "41",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "14"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "14"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "17",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "ESG": {
-        "numChapters": "21",
-        "1": "12",
-        "2": "6",
-        "3": "22",
-        "4": "23",
-        "5": "13",
-        "6": "7",
-        "7": "15",
-        "8": "17",
-        "9": "18",
-        "10": "19",
-        "11": "16",
-        "12": "14",
-        "13": "14",
-        "14": "10",
-        "15": "12",
-        "16": "24",
-        "17": "17",
-        "18": "32",
-        "19": "3",
-        "20": "13",
-        "21": "1"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "73"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "13",
-        "16": "25"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "31",
-        "34": "26",
-        "35": "20",
-        "36": "26",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "24",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "22",
-        "6": "17",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "12",
-        "11": "18",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
-      }
-    },
-    "omitted": {
-      "GEN": [
-        [
-          "26",
-          "16"
-        ],
-        [
-          "26",
-          "17"
-        ],
-        [
-          "26",
-          "18"
-        ]
-      ],
-      "DEU": [
-        [
-          "15",
-          "15"
-        ],
-        [
-          "15",
-          "16"
-        ],
-        [
-          "15",
-          "17"
-        ],
-        [
-          "15",
-          "18"
-        ]
-      ],
-      "JOS": [
-        [
-          "8",
-          "13"
-        ]
-      ],
-      "JDG": [
-        [
-          "20",
-          "22"
-        ],
-        [
-          "20",
-          "23"
-        ]
-      ],
-      "SA1": [
-        [
-          "9",
-          "9"
-        ],
-        [
-          "9",
-          "10"
-        ]
-      ],
-      "KI1": [
-        [
-          "11",
-          "23"
-        ],
-        [
-          "11",
-          "24"
-        ],
-        [
-          "11",
-          "25"
-        ],
-        [
-          "15",
-          "6"
-        ]
-      ],
-      "NEH": [
-        [
-          "11",
-          "5"
-        ],
-        [
-          "11",
-          "6"
-        ]
-      ],
-      "JOB": [
-        [
-          "3",
-          "13"
-        ],
-        [
-          "3",
-          "14"
-        ],
-        [
-          "3",
-          "15"
-        ],
-        [
-          "3",
-          "16"
-        ],
-        [
-          "14",
-          "4"
-        ],
-        [
-          "20",
-          "10"
-        ],
-        [
-          "20",
-          "11"
-        ],
-        [
-          "24",
-          "3"
-        ],
-        [
-          "24",
-          "4"
-        ],
-        [
-          "24",
-          "5"
-        ],
-        [
-          "24",
-          "4"
-        ],
-        [
-          "24",
-          "5"
-        ],
-        [
-          "24",
-          "6"
-        ],
-        [
-          "24",
-          "7"
-        ],
-        [
-          "24",
-          "8"
-        ],
-        [
-          "24",
-          "6"
-        ],
-        [
-          "24",
-          "9"
-        ],
-        [
-          "29",
-          "11"
-        ],
-        [
-          "29",
-          "12"
-        ],
-        [
-          "29",
-          "13"
-        ],
-        [
-          "29",
-          "14"
-        ],
-        [
-          "29",
-          "15"
-        ],
-        [
-          "29",
-          "16"
-        ],
-        [
-          "29",
-          "17"
-        ],
-        [
-          "29",
-          "18"
-        ],
-        [
-          "29",
-          "19"
-        ],
-        [
-          "29",
-          "20"
-        ],
-        [
-          "31",
-          "1"
-        ],
-        [
-          "31",
-          "2"
-        ],
-        [
-          "31",
-          "3"
-        ],
-        [
-          "31",
-          "4"
-        ],
-        [
-          "31",
-          "5"
-        ],
-        [
-          "31",
-          "29"
-        ],
-        [
-          "31",
-          "30"
-        ],
-        [
-          "31",
-          "31"
-        ],
-        [
-          "31",
-          "32"
-        ],
-        [
-          "31",
-          "33"
-        ],
-        [
-          "31",
-          "34"
-        ],
-        [
-          "31",
-          "35"
-        ],
-        [
-          "31",
-          "36"
-        ],
-        [
-          "31",
-          "37"
-        ],
-        [
-          "31",
-          "38"
-        ],
-        [
-          "31",
-          "39"
-        ],
-        [
-          "34",
-          "23"
-        ],
-        [
-          "34",
-          "24"
-        ],
-        [
-          "34",
-          "25"
-        ],
-        [
-          "36",
-          "20"
-        ],
-        [
-          "36",
-          "21"
-        ],
-        [
-          "36",
-          "29"
-        ],
-        [
-          "36",
-          "30"
-        ],
-        [
-          "36",
-          "31"
-        ]
-      ],
-      "PRO": [
-        [
-          "4",
-          "7"
-        ]
-      ],
-      "SNG": [
-        [
-          "4",
-          "12"
-        ],
-        [
-          "4",
-          "13"
-        ],
-        [
-          "4",
-          "14"
-        ]
-      ],
-      "ISA": [
-        [
-          "38",
-          "7"
-        ],
-        [
-          "38",
-          "8"
-        ],
-        [
-          "38",
-          "9"
-        ],
-        [
-          "38",
-          "10"
-        ],
-        [
-          "38",
-          "11"
-        ],
-        [
-          "38",
-          "12"
-        ],
-        [
-          "38",
-          "13"
-        ],
-        [
-          "38",
-          "14"
-        ],
-        [
-          "38",
-          "15"
-        ],
-        [
-          "38",
-          "16"
-        ],
-        [
-          "38",
-          "17"
-        ],
-        [
-          "38",
-          "18"
-        ],
-        [
-          "38",
-          "19"
-        ],
-        [
-          "38",
-          "20"
-        ],
-        [
-          "40",
-          "8"
-        ],
-        [
-          "40",
-          "9"
-        ],
-        [
-          "40",
-          "10"
-        ],
-        [
-          "40",
-          "11"
-        ],
-        [
-          "40",
-          "12"
-        ],
-        [
-          "40",
-          "13"
-        ],
-        [
-          "40",
-          "14"
-        ],
-        [
-          "40",
-          "15"
-        ],
-        [
-          "40",
-          "16"
-        ],
-        [
-          "40",
-          "17"
-        ],
-        [
-          "40",
-          "18"
-        ],
-        [
-          "40",
-          "19"
-        ],
-        [
-          "40",
-          "20"
-        ],
-        [
-          "41",
-          "6"
-        ],
-        [
-          "41",
-          "7"
-        ]
-      ],
-      "EZE": [
-        [
-          "1",
-          "14"
-        ],
-        [
-          "40",
-          "30"
-        ],
-        [
-          "41",
-          "10"
-        ],
-        [
-          "41",
-          "11"
-        ]
-      ],
-      "AMO": [
-        [
-          "5",
-          "7"
-        ],
-        [
-          "5",
-          "8"
-        ],
-        [
-          "5",
-          "9"
-        ]
-      ],
-      "NAH": [
-        [
-          "2",
-          "1"
-        ],
-        [
-          "2",
-          "2"
-        ]
-      ],
-      "ZEC": [
-        [
-          "4",
-          "1"
-        ],
-        [
-          "4",
-          "2"
-        ],
-        [
-          "4",
-          "3"
-        ],
-        [
-          "4",
-          "4"
-        ],
-        [
-          "4",
-          "5"
-        ],
-        [
-          "4",
-          "6"
-        ],
-        [
-          "4",
-          "7"
-        ],
-        [
-          "4",
-          "8"
-        ],
-        [
-          "4",
-          "9"
-        ],
-        [
-          "4",
-          "10"
-        ]
-      ],
-      "MAT": [
-        [
-          "9",
-          "34"
-        ],
-        [
-          "16",
-          "3"
-        ],
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "11"
-        ],
-        [
-          "21",
-          "44"
-        ],
-        [
-          "23",
-          "14"
-        ]
-      ],
-      "MRK": [
-        [
-          "7",
-          "16"
-        ],
-        [
-          "9",
-          "44"
-        ],
-        [
-          "9",
-          "46"
-        ],
-        [
-          "11",
-          "26"
-        ],
-        [
-          "15",
-          "28"
-        ]
-      ],
-      "LUK": [
-        [
-          "17",
-          "36"
-        ],
-        [
-          "22",
-          "20"
-        ],
-        [
-          "23",
-          "17"
-        ],
-        [
-          "24",
-          "12"
-        ],
-        [
-          "24",
-          "40"
-        ]
-      ],
-      "JHN": [
-        [
-          "4",
-          "7"
-        ],
-        [
-          "4",
-          "8"
-        ],
-        [
-          "5",
-          "4"
-        ]
-      ],
-      "ACT": [
-        [
-          "8",
-          "37"
-        ],
-        [
-          "15",
-          "34"
-        ],
-        [
-          "24",
-          "7"
-        ],
-        [
-          "28",
-          "29"
-        ]
-      ],
-      "ROM": [
-        [
-          "16",
-          "24"
-        ]
-      ],
-      "LES": [
-        [
-          "7",
-          "37"
-        ],
-        [
-          "7",
-          "38"
-        ],
-        [
-          "7",
-          "39"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "38"
-        ],
-        [
-          "7",
-          "39"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "39"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "40"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "41"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "42"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "43"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "44"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "45"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "46"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "47"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "48"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "49"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "50"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "51"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "52"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "53"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "54"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "55"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "56"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "57"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "58"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "59"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "60"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "61"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "62"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "63"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "64"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "65"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "66"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "67"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "135"
-        ],
-        [
-          "7",
-          "68"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "135"
-        ],
-        [
-          "7",
-          "136"
-        ],
-        [
-          "7",
-          "69"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "135"
-        ],
-        [
-          "7",
-          "136"
-        ],
-        [
-          "7",
-          "137"
-        ],
-        [
-          "7",
-          "70"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "135"
-        ],
-        [
-          "7",
-          "136"
-        ],
-        [
-          "7",
-          "137"
-        ],
-        [
-          "7",
-          "138"
-        ],
-        [
-          "7",
-          "71"
-        ],
-        [
-          "7",
-          "72"
-        ],
-        [
-          "7",
-          "73"
-        ],
-        [
-          "7",
-          "74"
-        ],
-        [
-          "7",
-          "75"
-        ],
-        [
-          "7",
-          "76"
-        ],
-        [
-          "7",
-          "77"
-        ],
-        [
-          "7",
-          "78"
-        ],
-        [
-          "7",
-          "79"
-        ],
-        [
-          "7",
-          "80"
-        ],
-        [
-          "7",
-          "81"
-        ],
-        [
-          "7",
-          "82"
-        ],
-        [
-          "7",
-          "83"
-        ],
-        [
-          "7",
-          "84"
-        ],
-        [
-          "7",
-          "85"
-        ],
-        [
-          "7",
-          "86"
-        ],
-        [
-          "7",
-          "87"
-        ],
-        [
-          "7",
-          "88"
-        ],
-        [
-          "7",
-          "89"
-        ],
-        [
-          "7",
-          "90"
-        ],
-        [
-          "7",
-          "91"
-        ],
-        [
-          "7",
-          "92"
-        ],
-        [
-          "7",
-          "93"
-        ],
-        [
-          "7",
-          "94"
-        ],
-        [
-          "7",
-          "95"
-        ],
-        [
-          "7",
-          "96"
-        ],
-        [
-          "7",
-          "97"
-        ],
-        [
-          "7",
-          "98"
-        ],
-        [
-          "7",
-          "99"
-        ],
-        [
-          "7",
-          "100"
-        ],
-        [
-          "7",
-          "101"
-        ],
-        [
-          "7",
-          "102"
-        ],
-        [
-          "7",
-          "103"
-        ],
-        [
-          "7",
-          "104"
-        ],
-        [
-          "7",
-          "105"
-        ],
-        [
-          "7",
-          "106"
-        ],
-        [
-          "7",
-          "107"
-        ],
-        [
-          "7",
-          "108"
-        ],
-        [
-          "7",
-          "109"
-        ],
-        [
-          "7",
-          "110"
-        ],
-        [
-          "7",
-          "111"
-        ],
-        [
-          "7",
-          "112"
-        ],
-        [
-          "7",
-          "113"
-        ],
-        [
-          "7",
-          "114"
-        ],
-        [
-          "7",
-          "115"
-        ],
-        [
-          "7",
-          "116"
-        ],
-        [
-          "7",
-          "117"
-        ],
-        [
-          "7",
-          "118"
-        ],
-        [
-          "7",
-          "119"
-        ],
-        [
-          "7",
-          "120"
-        ],
-        [
-          "7",
-          "121"
-        ],
-        [
-          "7",
-          "122"
-        ],
-        [
-          "7",
-          "123"
-        ],
-        [
-          "7",
-          "124"
-        ],
-        [
-          "7",
-          "125"
-        ],
-        [
-          "7",
-          "126"
-        ],
-        [
-          "7",
-          "127"
-        ],
-        [
-          "7",
-          "128"
-        ],
-        [
-          "7",
-          "129"
-        ],
-        [
-          "7",
-          "130"
-        ],
-        [
-          "7",
-          "131"
-        ],
-        [
-          "7",
-          "132"
-        ],
-        [
-          "7",
-          "133"
-        ],
-        [
-          "7",
-          "134"
-        ],
-        [
-          "7",
-          "135"
-        ],
-        [
-          "7",
-          "136"
-        ],
-        [
-          "7",
-          "137"
-        ],
-        [
-          "7",
-          "138"
-        ],
-        [
-          "7",
-          "139"
-        ]
-      ],
-      "ESG": [
-        [
-          "1",
-          "1"
-        ],
-        [
-          "7",
-          "1"
-        ],
-        [
-          "7",
-          "2"
-        ],
-        [
-          "7",
-          "3"
-        ],
-        [
-          "7",
-          "4"
-        ],
-        [
-          "7",
-          "5"
-        ],
-        [
-          "7",
-          "6"
-        ],
-        [
-          "7",
-          "7"
-        ],
-        [
-          "7",
-          "8"
-        ],
-        [
-          "7",
-          "9"
-        ],
-        [
-          "7",
-          "10"
-        ],
-        [
-          "7",
-          "11"
-        ],
-        [
-          "7",
-          "12"
-        ],
-        [
-          "7",
-          "13"
-        ],
-        [
-          "8",
-          "6"
-        ],
-        [
-          "9",
-          "1"
-        ],
-        [
-          "9",
-          "2"
-        ],
-        [
-          "9",
-          "3"
-        ],
-        [
-          "9",
-          "4"
-        ],
-        [
-          "9",
-          "5"
-        ],
-        [
-          "9",
-          "6"
-        ],
-        [
-          "9",
-          "7"
-        ],
-        [
-          "12",
-          "1"
-        ],
-        [
-          "12",
-          "2"
-        ],
-        [
-          "17",
-          "1"
-        ],
-        [
-          "17",
-          "2"
-        ],
-        [
-          "17",
-          "3"
-        ],
-        [
-          "17",
-          "4"
-        ],
-        [
-          "17",
-          "5"
-        ],
-        [
-          "17",
-          "6"
-        ],
-        [
-          "17",
-          "7"
-        ],
-        [
-          "17",
-          "8"
-        ],
-        [
-          "17",
-          "9"
-        ],
-        [
-          "17",
-          "10"
-        ],
-        [
-          "17",
-          "11"
-        ],
-        [
-          "17",
-          "12"
-        ],
-        [
-          "18",
-          "5"
-        ],
-        [
-          "20",
-          "1"
-        ],
-        [
-          "20",
-          "2"
-        ],
-        [
-          "20",
-          "3"
-        ]
-      ],
-      "SIR": [
-        [
-          "1",
-          "5"
-        ],
-        [
-          "1",
-          "7"
-        ],
-        [
-          "1",
-          "21"
-        ],
-        [
-          "3",
-          "19"
-        ],
-        [
-          "3",
-          "25"
-        ],
-        [
-          "10",
-          "21"
-        ],
-        [
-          "11",
-          "15"
-        ],
-        [
-          "11",
-          "16"
-        ],
-        [
-          "13",
-          "14"
-        ],
-        [
-          "16",
-          "15"
-        ],
-        [
-          "16",
-          "16"
-        ],
-        [
-          "17",
-          "5"
-        ],
-        [
-          "17",
-          "9"
-        ],
-        [
-          "17",
-          "16"
-        ],
-        [
-          "17",
-          "18"
-        ],
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "3"
-        ],
-        [
-          "19",
-          "18"
-        ],
-        [
-          "19",
-          "19"
-        ],
-        [
-          "19",
-          "21"
-        ],
-        [
-          "20",
-          "3"
-        ],
-        [
-          "21",
-          "20"
-        ],
-        [
-          "21",
-          "21"
-        ],
-        [
-          "22",
-          "9"
-        ],
-        [
-          "22",
-          "10"
-        ],
-        [
-          "24",
-          "18"
-        ],
-        [
-          "24",
-          "24"
-        ],
-        [
-          "25",
-          "12"
-        ]
-      ]
-    },
-    "combined": {},
-    "reordered": {}
-  },
-  "Catholic": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "54",
-        "32": "33",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "29",
-        "8": "28",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "37",
-        "22": "30",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "29",
-        "38": "31",
-        "39": "43",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "26",
-        "6": "23",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
-      },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "27",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
-        "14": "45",
-        "15": "41",
-        "16": "35",
-        "17": "28",
-        "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "19",
-        "26": "66",
-        "27": "23",
-        "28": "31",
-        "29": "39",
-        "30": "17",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
-      },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "31",
-        "13": "19",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "29",
-        "23": "26",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "69",
-        "29": "28",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
-      },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "35",
-        "9": "27",
-        "10": "43",
-        "11": "23",
-        "12": "24",
-        "13": "33",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
-      },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "32",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "25"
-      },
-      "RUT": {
-        "numChapters": "4",
-        "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
-      },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "58",
-        "18": "30",
-        "19": "24",
-        "20": "42",
-        "21": "16",
-        "22": "23",
-        "23": "28",
-        "24": "23",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
-      },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "32",
-        "19": "44",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "20",
-        "5": "32",
-        "6": "38",
-        "7": "51",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "43",
-        "21": "29",
-        "22": "54"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "20",
-        "12": "22",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
-      },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "41",
-        "6": "66",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "41",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
-      },
-      "CH2": {
-        "numChapters": "36",
-        "1": "18",
-        "2": "17",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "23",
-        "14": "14",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
-      },
-      "EZR": {
-        "numChapters": "10",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44"
-      },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "38",
-        "4": "17",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "37",
-        "10": "40",
-        "11": "36",
-        "12": "47",
-        "13": "31"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
-      "EST": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "54",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "46",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
-        "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "22",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "14",
-        "26": "14",
-        "27": "24",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "32",
-        "41": "26",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "21",
-        "10": "18",
-        "11": "7",
-        "12": "9",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "51",
-        "19": "15",
-        "20": "10",
-        "21": "14",
-        "22": "32",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "13",
-        "31": "25",
-        "32": "11",
-        "33": "22",
-        "34": "23",
-        "35": "28",
-        "36": "13",
-        "37": "40",
-        "38": "23",
-        "39": "14",
-        "40": "18",
-        "41": "14",
-        "42": "12",
-        "43": "5",
-        "44": "27",
-        "45": "18",
-        "46": "12",
-        "47": "10",
-        "48": "15",
-        "49": "21",
-        "50": "24",
-        "51": "21",
-        "52": "11",
-        "53": "7",
-        "54": "9",
-        "55": "24",
-        "56": "14",
-        "57": "12",
-        "58": "12",
-        "59": "18",
-        "60": "14",
-        "61": "9",
-        "62": "13",
-        "63": "12",
-        "64": "11",
-        "65": "14",
-        "66": "20",
-        "67": "8",
-        "68": "36",
-        "69": "37",
-        "70": "6",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "11",
-        "76": "13",
-        "77": "21",
-        "78": "72",
-        "79": "13",
-        "80": "20",
-        "81": "17",
-        "82": "8",
-        "83": "19",
-        "84": "13",
-        "85": "14",
-        "86": "17",
-        "87": "7",
-        "88": "19",
-        "89": "53",
-        "90": "17",
-        "91": "16",
-        "92": "16",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
-        "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "9",
-        "102": "29",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "14",
-        "109": "31",
-        "110": "7",
-        "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
-        "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
-        "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "14",
-        "141": "10",
-        "142": "8",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
-        "148": "14",
-        "149": "9",
-        "150": "6"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
-        "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "24",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
-      },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "17",
-        "5": "19",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "17",
-        "2": "17",
-        "3": "11",
-        "4": "17",
-        "5": "16",
-        "6": "12",
-        "7": "14",
-        "8": "14"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "17",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "32",
-        "21": "28",
-        "22": "27",
-        "23": "28",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "31",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "27",
-        "42": "25",
-        "43": "35",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "22",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "24",
-        "9": "21",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "12",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "11",
-        "65": "25",
-        "66": "24"
-      },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "23",
-        "9": "25",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
-        "34": "22",
-        "35": "19",
-        "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "72"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "44",
-        "21": "37",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "100",
-        "4": "34",
-        "5": "30",
-        "6": "29",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "43"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "9",
-        "2": "25",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "11",
-        "12": "15",
-        "13": "15",
-        "14": "10"
-      },
-      "JOL": {
-        "numChapters": "4",
-        "1": "20",
-        "2": "27",
-        "3": "5",
-        "4": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "16",
-        "2": "11",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "14",
-        "5": "14",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "14",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "17",
-        "2": "17",
-        "3": "10",
-        "4": "16",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "17",
-        "3": "24"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "49",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "41",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "13"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      }
-    },
-    "omitted": {},
-    "combined": {},
-    "reordered": {}
-  },
-  "RussianCanonical": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "55",
-        "32": "32",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "25",
-        "8": "32",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "36",
-        "22": "31",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "29",
-        "38": "31",
-        "39": "43",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "19",
-        "6": "30",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "56",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
-      },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "27",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "15",
-        "13": "34",
-        "14": "45",
-        "15": "41",
-        "16": "50",
-        "17": "13",
-        "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "39",
-        "30": "17",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
-      },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "32",
-        "13": "18",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "30",
-        "23": "25",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "68",
-        "29": "29",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
-      },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "16",
-        "6": "26",
-        "7": "26",
-        "8": "35",
-        "9": "27",
-        "10": "43",
-        "11": "23",
-        "12": "24",
-        "13": "33",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
-      },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "25"
-      },
-      "RUT": {
-        "numChapters": "4",
-        "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
-      },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "58",
-        "18": "30",
-        "19": "24",
-        "20": "43",
-        "21": "15",
-        "22": "23",
-        "23": "28",
-        "24": "23",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
-      },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "33",
-        "19": "43",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "34",
-        "5": "18",
-        "6": "38",
-        "7": "51",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "43",
-        "21": "29",
-        "22": "53"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "21",
-        "12": "21",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
-      },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "26",
-        "6": "81",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "40",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
-      },
-      "CH2": {
-        "numChapters": "36",
-        "1": "17",
-        "2": "18",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "22",
-        "14": "15",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
-      },
-      "EZR": {
-        "numChapters": "10",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44"
-      },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "32",
-        "4": "23",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "38",
-        "10": "39",
-        "11": "36",
-        "12": "47",
-        "13": "31"
-      },
-      "EST": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
-        "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "22",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "35",
-        "40": "27",
-        "41": "26",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
-        "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
-        "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
-        "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
-        "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
-        "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "7",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
-        "148": "14",
-        "149": "9",
-        "150": "6"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
-        "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "24",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
-      },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "17",
-        "5": "19",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "16",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "16",
-        "6": "12",
-        "7": "14",
-        "8": "14"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "22",
-        "3": "25",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "22",
-        "9": "21",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "12",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "12",
-        "65": "25",
-        "66": "24"
-      },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "22",
-        "9": "26",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
-        "34": "22",
-        "35": "19",
-        "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "49",
-        "21": "32",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "33",
-        "4": "34",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "11",
-        "2": "23",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "15",
-        "14": "10"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "16",
-        "2": "11",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "15",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "40",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "26",
-        "15": "33",
-        "16": "24"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "32",
-        "12": "21",
-        "13": "13"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "17",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      }
-    },
-    "omitted": {},
-    "combined": {},
-    "reordered": {}
-  },
-  "Vulgate1": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "31",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "55",
-        "32": "32",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "32",
-        "50": "25"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "25",
-        "8": "32",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "36",
-        "22": "31",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "29",
-        "38": "31",
-        "39": "43",
-        "40": "36"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "19",
-        "6": "30",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "45",
-        "27": "34"
-      },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "27",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "34",
-        "12": "15",
-        "13": "34",
-        "14": "45",
-        "15": "41",
-        "16": "50",
-        "17": "13",
-        "18": "32",
-        "19": "22",
-        "20": "30",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "39",
-        "30": "17",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
-      },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "32",
-        "13": "18",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "30",
-        "23": "25",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "68",
-        "29": "29",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
-      },
-      "JOS": {
-        "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "25",
-        "5": "16",
-        "6": "27",
-        "7": "26",
-        "8": "35",
-        "9": "27",
-        "10": "43",
-        "11": "23",
-        "12": "24",
-        "13": "33",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "43",
-        "22": "34",
-        "23": "16",
-        "24": "33"
-      },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "32",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "24"
-      },
-      "RUT": {
-        "numChapters": "4",
-        "1": "22",
-        "2": "23",
-        "3": "18",
-        "4": "22"
-      },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "58",
-        "18": "30",
-        "19": "24",
-        "20": "43",
-        "21": "15",
-        "22": "23",
-        "23": "28",
-        "24": "23",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
-      },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "33",
-        "19": "43",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
-      },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "34",
-        "5": "18",
-        "6": "38",
-        "7": "51",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "43",
-        "21": "29",
-        "22": "54"
-      },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "21",
-        "12": "21",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
-      },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "26",
-        "6": "81",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "46",
-        "12": "40",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "7",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
-      },
-      "CH2": {
-        "numChapters": "36",
-        "1": "17",
-        "2": "18",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "22",
-        "14": "15",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
-      },
-      "EZR": {
-        "numChapters": "10",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
-        "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44"
-      },
-      "NEH": {
-        "numChapters": "13",
-        "1": "11",
-        "2": "20",
-        "3": "31",
-        "4": "23",
-        "5": "19",
-        "6": "19",
-        "7": "73",
-        "8": "18",
-        "9": "38",
-        "10": "39",
-        "11": "36",
-        "12": "46",
-        "13": "31"
-      },
-      "EST": {
-        "numChapters": "16",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "13",
-        "11": "12",
-        "12": "6",
-        "13": "18",
-        "14": "19",
-        "15": "19",
-        "16": "24"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
-        "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "23",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "35",
-        "40": "28",
-        "41": "25",
-        "42": "16"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "13",
-        "3": "9",
-        "4": "10",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "6",
-        "43": "26",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "13",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
-        "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
-        "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
-        "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "7",
-        "126": "5",
-        "127": "6",
-        "128": "8",
-        "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
-        "133": "3",
-        "134": "21",
-        "135": "27",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
-        "148": "14",
-        "149": "9",
-        "150": "6"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
-        "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "24",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
-      },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
-        "4": "17",
-        "5": "19",
-        "6": "11",
-        "7": "30",
-        "8": "17",
-        "9": "18",
-        "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "16",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "17",
-        "6": "12",
-        "7": "13",
-        "8": "14"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "22",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "22",
-        "9": "21",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "26",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "12",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "12",
-        "65": "25",
-        "66": "24"
-      },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "22",
-        "9": "26",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "38",
-        "26": "24",
-        "27": "22",
-        "28": "17",
-        "29": "32",
-        "30": "24",
-        "31": "40",
-        "32": "44",
-        "33": "26",
-        "34": "22",
-        "35": "19",
-        "36": "32",
-        "37": "20",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "9",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "49",
-        "21": "32",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "100",
-        "4": "34",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "65",
-        "14": "42"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "11",
-        "2": "24",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "15",
-        "14": "10"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "15",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "16",
-        "2": "11",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "14",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "14",
-        "2": "24"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "26",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "40",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "39",
-        "9": "49",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "72",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "59",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "27",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "40",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "13"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "25",
-        "2": "23",
-        "3": "25",
-        "4": "23",
-        "5": "28",
-        "6": "22",
-        "7": "20",
-        "8": "24",
-        "9": "12",
-        "10": "13",
-        "11": "21",
-        "12": "22",
-        "13": "23",
-        "14": "17"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "12",
-        "2": "18",
-        "3": "15",
-        "4": "17",
-        "5": "29",
-        "6": "21",
-        "7": "25",
-        "8": "34",
-        "9": "19",
-        "10": "20",
-        "11": "21",
-        "12": "20",
-        "13": "31",
-        "14": "18",
-        "15": "15",
-        "16": "31"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "25",
-        "3": "19",
-        "4": "20",
-        "5": "24",
-        "6": "27",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "27",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "20",
-        "18": "25",
-        "19": "20"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "40",
-        "2": "23",
-        "3": "34",
-        "4": "36",
-        "5": "18",
-        "6": "37",
-        "7": "40",
-        "8": "22",
-        "9": "25",
-        "10": "34",
-        "11": "36",
-        "12": "19",
-        "13": "32",
-        "14": "27",
-        "15": "22",
-        "16": "31",
-        "17": "31",
-        "18": "33",
-        "19": "28",
-        "20": "33",
-        "21": "31",
-        "22": "33",
-        "23": "38",
-        "24": "47",
-        "25": "36",
-        "26": "28",
-        "27": "33",
-        "28": "30",
-        "29": "35",
-        "30": "27",
-        "31": "42",
-        "32": "28",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "28",
-        "37": "34",
-        "38": "39",
-        "39": "41",
-        "40": "32",
-        "41": "28",
-        "42": "26",
-        "43": "37",
-        "44": "27",
-        "45": "31",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "19",
-        "50": "31",
-        "51": "38"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "72"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "67",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "54",
-        "13": "54",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "33",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "46",
-        "13": "26",
-        "14": "46",
-        "15": "40"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "PS2": {
-        "numChapters": "1",
-        "1": "7"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "31",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "97",
-        "9": "56"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "60",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "PSS": {
-        "numChapters": "1",
-        "1": "7"
-      },
-      "LAO": {
-        "numChapters": "1",
-        "1": "20"
+        "1": "0",
+        "3": "68"
       }
     },
-    "omitted": {},
+    "omitted": {
+      "EZR": [
+        [
+          "2",
+          "3"
+        ],
+        [
+          "2",
+          "4"
+        ],
+        [
+          "2",
+          "5"
+        ],
+        [
+          "2",
+          "6"
+        ],
+        [
+          "2",
+          "7"
+        ],
+        [
+          "2",
+          "8"
+        ],
+        [
+          "2",
+          "9"
+        ],
+        [
+          "2",
+          "10"
+        ],
+        [
+          "2",
+          "11"
+        ],
+        [
+          "2",
+          "12"
+        ],
+        [
+          "2",
+          "13"
+        ],
+        [
+          "2",
+          "14"
+        ],
+        [
+          "2",
+          "15"
+        ],
+        [
+          "2",
+          "16"
+        ],
+        [
+          "2",
+          "17"
+        ],
+        [
+          "2",
+          "18"
+        ],
+        [
+          "2",
+          "19"
+        ],
+        [
+          "2",
+          "20"
+        ]
+      ],
+      "ISA": [
+        [
+          "38",
+          "7"
+        ],
+        [
+          "38",
+          "8"
+        ],
+        [
+          "38",
+          "9"
+        ],
+        [
+          "38",
+          "10"
+        ],
+        [
+          "38",
+          "11"
+        ],
+        [
+          "38",
+          "12"
+        ],
+        [
+          "38",
+          "13"
+        ],
+        [
+          "38",
+          "14"
+        ],
+        [
+          "38",
+          "15"
+        ],
+        [
+          "38",
+          "16"
+        ],
+        [
+          "38",
+          "17"
+        ],
+        [
+          "38",
+          "18"
+        ],
+        [
+          "38",
+          "19"
+        ],
+        [
+          "38",
+          "20"
+        ]
+      ],
+      "ZEC": [
+        [
+          "4",
+          "6"
+        ],
+        [
+          "4",
+          "7"
+        ],
+        [
+          "4",
+          "8"
+        ],
+        [
+          "4",
+          "9"
+        ]
+      ],
+      "MAT": [
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "11"
+        ],
+        [
+          "21",
+          "44"
+        ],
+        [
+          "23",
+          "14"
+        ]
+      ],
+      "MRK": [
+        [
+          "7",
+          "16"
+        ],
+        [
+          "9",
+          "44"
+        ],
+        [
+          "9",
+          "46"
+        ],
+        [
+          "11",
+          "26"
+        ],
+        [
+          "15",
+          "28"
+        ]
+      ],
+      "LUK": [
+        [
+          "17",
+          "36"
+        ],
+        [
+          "23",
+          "17"
+        ]
+      ],
+      "JHN": [
+        [
+          "5",
+          "4"
+        ]
+      ],
+      "ACT": [
+        [
+          "8",
+          "37"
+        ],
+        [
+          "15",
+          "34"
+        ],
+        [
+          "24",
+          "7"
+        ],
+        [
+          "28",
+          "29"
+        ]
+      ],
+      "ROM": [
+        [
+          "16",
+          "24"
+        ]
+      ],
+      "GES": [
+        [
+          "5",
+          "41"
+        ],
+        [
+          "5",
+          "42"
+        ],
+        [
+          "5",
+          "43"
+        ]
+      ],
+      "ESA": [
+        [
+          "2",
+          "1"
+        ],
+        [
+          "2",
+          "2"
+        ],
+        [
+          "2",
+          "3"
+        ],
+        [
+          "2",
+          "4"
+        ],
+        [
+          "2",
+          "5"
+        ],
+        [
+          "2",
+          "6"
+        ],
+        [
+          "2",
+          "7"
+        ],
+        [
+          "2",
+          "8"
+        ],
+        [
+          "2",
+          "9"
+        ],
+        [
+          "2",
+          "10"
+        ],
+        [
+          "2",
+          "11"
+        ],
+        [
+          "7",
+          "1"
+        ],
+        [
+          "7",
+          "2"
+        ],
+        [
+          "7",
+          "3"
+        ],
+        [
+          "7",
+          "4"
+        ],
+        [
+          "7",
+          "5"
+        ],
+        [
+          "7",
+          "6"
+        ],
+        [
+          "7",
+          "7"
+        ],
+        [
+          "7",
+          "8"
+        ],
+        [
+          "7",
+          "9"
+        ],
+        [
+          "7",
+          "10"
+        ],
+        [
+          "7",
+          "11"
+        ],
+        [
+          "7",
+          "12"
+        ],
+        [
+          "7",
+          "13"
+        ],
+        [
+          "8",
+          "6"
+        ],
+        [
+          "10",
+          "1"
+        ],
+        [
+          "10",
+          "2"
+        ],
+        [
+          "10",
+          "3"
+        ],
+        [
+          "10",
+          "4"
+        ],
+        [
+          "10",
+          "5"
+        ],
+        [
+          "10",
+          "6"
+        ],
+        [
+          "10",
+          "7"
+        ],
+        [
+          "10",
+          "8"
+        ],
+        [
+          "10",
+          "9"
+        ],
+        [
+          "10",
+          "10"
+        ],
+        [
+          "10",
+          "11"
+        ],
+        [
+          "12",
+          "1"
+        ],
+        [
+          "12",
+          "2"
+        ],
+        [
+          "17",
+          "1"
+        ],
+        [
+          "17",
+          "2"
+        ],
+        [
+          "17",
+          "3"
+        ],
+        [
+          "17",
+          "4"
+        ],
+        [
+          "17",
+          "5"
+        ],
+        [
+          "17",
+          "6"
+        ],
+        [
+          "17",
+          "7"
+        ],
+        [
+          "17",
+          "8"
+        ],
+        [
+          "17",
+          "9"
+        ],
+        [
+          "17",
+          "10"
+        ],
+        [
+          "17",
+          "11"
+        ],
+        [
+          "17",
+          "12"
+        ]
+      ],
+      "SIR": [
+        [
+          "1",
+          "5"
+        ],
+        [
+          "1",
+          "7"
+        ],
+        [
+          "1",
+          "21"
+        ],
+        [
+          "3",
+          "19"
+        ],
+        [
+          "3",
+          "25"
+        ],
+        [
+          "10",
+          "21"
+        ],
+        [
+          "16",
+          "15"
+        ],
+        [
+          "16",
+          "16"
+        ],
+        [
+          "17",
+          "5"
+        ],
+        [
+          "17",
+          "9"
+        ],
+        [
+          "17",
+          "16"
+        ],
+        [
+          "17",
+          "18"
+        ],
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "3"
+        ],
+        [
+          "19",
+          "18"
+        ],
+        [
+          "19",
+          "19"
+        ],
+        [
+          "19",
+          "21"
+        ],
+        [
+          "22",
+          "9"
+        ],
+        [
+          "22",
+          "10"
+        ],
+        [
+          "24",
+          "18"
+        ],
+        [
+          "24",
+          "24"
+        ],
+        [
+          "25",
+          "12"
+        ],
+        [
+          "26",
+          "19"
+        ],
+        [
+          "26",
+          "20"
+        ],
+        [
+          "26",
+          "21"
+        ],
+        [
+          "26",
+          "22"
+        ],
+        [
+          "26",
+          "23"
+        ],
+        [
+          "26",
+          "24"
+        ],
+        [
+          "26",
+          "25"
+        ],
+        [
+          "26",
+          "26"
+        ],
+        [
+          "26",
+          "27"
+        ]
+      ]
+    },
     "combined": {},
     "reordered": {}
   },
-  "CatholicEsther16": {
+  "GNTUK": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -28647,8 +10278,8 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "54",
-        "32": "33",
+        "31": "55",
+        "32": "32",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -28676,8 +10307,8 @@
         "4": "31",
         "5": "23",
         "6": "30",
-        "7": "29",
-        "8": "28",
+        "7": "25",
+        "8": "32",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -28690,8 +10321,8 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "37",
-        "22": "30",
+        "21": "36",
+        "22": "31",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -28717,8 +10348,8 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "26",
-        "6": "23",
+        "5": "19",
+        "6": "30",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -28758,8 +10389,8 @@
         "13": "33",
         "14": "45",
         "15": "41",
-        "16": "35",
-        "17": "28",
+        "16": "50",
+        "17": "13",
         "18": "32",
         "19": "22",
         "20": "29",
@@ -28767,12 +10398,12 @@
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "19",
-        "26": "66",
+        "25": "18",
+        "26": "65",
         "27": "23",
         "28": "31",
-        "29": "39",
-        "30": "17",
+        "29": "40",
+        "30": "16",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -28793,8 +10424,8 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "31",
-        "13": "19",
+        "12": "32",
+        "13": "18",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -28803,14 +10434,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "29",
-        "23": "26",
+        "22": "30",
+        "23": "25",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "69",
-        "29": "28",
+        "28": "68",
+        "29": "29",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -28850,7 +10481,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "32",
+        "5": "31",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -28897,10 +10528,10 @@
         "18": "30",
         "19": "24",
         "20": "42",
-        "21": "16",
+        "21": "15",
         "22": "23",
-        "23": "28",
-        "24": "23",
+        "23": "29",
+        "24": "22",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -28928,8 +10559,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "32",
-        "19": "44",
+        "18": "33",
+        "19": "43",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -28941,8 +10572,8 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "20",
-        "5": "32",
+        "4": "34",
+        "5": "18",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -28959,7 +10590,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "54"
+        "22": "53"
       },
       "KI2": {
         "numChapters": "25",
@@ -28973,8 +10604,8 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "20",
-        "12": "22",
+        "11": "21",
+        "12": "21",
         "13": "25",
         "14": "29",
         "15": "38",
@@ -28995,14 +10626,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "41",
-        "6": "66",
+        "5": "26",
+        "6": "81",
         "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
         "11": "47",
-        "12": "41",
+        "12": "40",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -29023,8 +10654,8 @@
       },
       "CH2": {
         "numChapters": "36",
-        "1": "18",
-        "2": "17",
+        "1": "17",
+        "2": "18",
         "3": "17",
         "4": "22",
         "5": "14",
@@ -29035,8 +10666,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "23",
-        "14": "14",
+        "13": "22",
+        "14": "15",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -29077,56 +10708,20 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "38",
-        "4": "17",
+        "3": "32",
+        "4": "23",
         "5": "19",
         "6": "19",
         "7": "73",
         "8": "18",
-        "9": "37",
-        "10": "40",
+        "9": "38",
+        "10": "39",
         "11": "36",
         "12": "47",
         "13": "31"
       },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
       "EST": {
-        "numChapters": "16",
+        "numChapters": "10",
         "1": "22",
         "2": "23",
         "3": "15",
@@ -29136,50 +10731,7 @@
         "7": "10",
         "8": "17",
         "9": "32",
-        "10": "13",
-        "11": "12",
-        "12": "6",
-        "13": "18",
-        "14": "19",
-        "15": "19",
-        "16": "24"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "54",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "46",
-        "13": "26",
-        "14": "46",
-        "15": "39"
+        "10": "3"
       },
       "JOB": {
         "numChapters": "42",
@@ -29207,9 +10759,9 @@
         "22": "30",
         "23": "17",
         "24": "25",
-        "25": "14",
+        "25": "6",
         "26": "14",
-        "27": "24",
+        "27": "23",
         "28": "28",
         "29": "25",
         "30": "31",
@@ -29222,34 +10774,34 @@
         "37": "24",
         "38": "41",
         "39": "30",
-        "40": "32",
-        "41": "26",
+        "40": "24",
+        "41": "34",
         "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
         "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "21",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
         "10": "18",
         "11": "7",
-        "12": "9",
+        "12": "8",
         "13": "6",
         "14": "7",
         "15": "5",
         "16": "11",
         "17": "15",
-        "18": "51",
-        "19": "15",
-        "20": "10",
-        "21": "14",
-        "22": "32",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
         "23": "6",
         "24": "10",
         "25": "22",
@@ -29257,69 +10809,69 @@
         "27": "14",
         "28": "9",
         "29": "11",
-        "30": "13",
-        "31": "25",
+        "30": "12",
+        "31": "24",
         "32": "11",
         "33": "22",
-        "34": "23",
+        "34": "22",
         "35": "28",
-        "36": "13",
+        "36": "12",
         "37": "40",
-        "38": "23",
-        "39": "14",
-        "40": "18",
-        "41": "14",
-        "42": "12",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
         "43": "5",
-        "44": "27",
-        "45": "18",
-        "46": "12",
-        "47": "10",
-        "48": "15",
-        "49": "21",
-        "50": "24",
-        "51": "21",
-        "52": "11",
-        "53": "7",
-        "54": "9",
-        "55": "24",
-        "56": "14",
-        "57": "12",
-        "58": "12",
-        "59": "18",
-        "60": "14",
-        "61": "9",
-        "62": "13",
-        "63": "12",
-        "64": "11",
-        "65": "14",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
+        "62": "12",
+        "63": "11",
+        "64": "10",
+        "65": "13",
         "66": "20",
-        "67": "8",
-        "68": "36",
-        "69": "37",
-        "70": "6",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
         "71": "24",
         "72": "20",
         "73": "28",
         "74": "23",
-        "75": "11",
-        "76": "13",
-        "77": "21",
+        "75": "10",
+        "76": "12",
+        "77": "20",
         "78": "72",
         "79": "13",
-        "80": "20",
-        "81": "17",
+        "80": "19",
+        "81": "16",
         "82": "8",
-        "83": "19",
-        "84": "13",
-        "85": "14",
+        "83": "18",
+        "84": "12",
+        "85": "13",
         "86": "17",
         "87": "7",
-        "88": "19",
-        "89": "53",
+        "88": "18",
+        "89": "52",
         "90": "17",
         "91": "16",
-        "92": "16",
+        "92": "15",
         "93": "5",
         "94": "23",
         "95": "11",
@@ -29328,14 +10880,14 @@
         "98": "9",
         "99": "9",
         "100": "5",
-        "101": "9",
-        "102": "29",
+        "101": "8",
+        "102": "28",
         "103": "22",
         "104": "35",
         "105": "45",
         "106": "48",
         "107": "43",
-        "108": "14",
+        "108": "13",
         "109": "31",
         "110": "7",
         "111": "10",
@@ -29367,9 +10919,9 @@
         "137": "9",
         "138": "8",
         "139": "24",
-        "140": "14",
+        "140": "13",
         "141": "10",
-        "142": "8",
+        "142": "7",
         "143": "12",
         "144": "15",
         "145": "21",
@@ -29418,8 +10970,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "17",
-        "5": "19",
+        "4": "16",
+        "5": "20",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -29433,88 +10985,12 @@
         "1": "17",
         "2": "17",
         "3": "11",
-        "4": "17",
+        "4": "16",
         "5": "16",
-        "6": "12",
-        "7": "14",
+        "6": "13",
+        "7": "13",
         "8": "14"
       },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "17",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "32",
-        "21": "28",
-        "22": "27",
-        "23": "28",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "31",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "27",
-        "42": "25",
-        "43": "35",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
       "ISA": {
         "numChapters": "66",
         "1": "31",
@@ -29524,7 +11000,7 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "24",
+        "8": "22",
         "9": "21",
         "10": "34",
         "11": "16",
@@ -29554,7 +11030,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "22",
+        "38": "20",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -29580,7 +11056,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "11",
+        "64": "12",
         "65": "25",
         "66": "24"
       },
@@ -29593,8 +11069,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "23",
-        "9": "25",
+        "8": "22",
+        "9": "26",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -29647,15 +11123,6 @@
         "4": "22",
         "5": "22"
       },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "72"
-      },
       "EZE": {
         "numChapters": "48",
         "1": "28",
@@ -29677,8 +11144,8 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "44",
-        "21": "37",
+        "20": "49",
+        "21": "32",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -29708,26 +11175,24 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "14",
+        "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "100",
-        "4": "34",
-        "5": "30",
-        "6": "29",
+        "3": "30",
+        "4": "37",
+        "5": "31",
+        "6": "28",
         "7": "28",
         "8": "27",
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "43"
+        "12": "13"
       },
       "HOS": {
         "numChapters": "14",
-        "1": "9",
-        "2": "25",
+        "1": "11",
+        "2": "23",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -29736,17 +11201,16 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "11",
-        "12": "15",
-        "13": "15",
-        "14": "10"
+        "11": "12",
+        "12": "14",
+        "13": "16",
+        "14": "9"
       },
       "JOL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "20",
-        "2": "27",
-        "3": "5",
-        "4": "21"
+        "2": "32",
+        "3": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -29766,8 +11230,8 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "16",
-        "2": "11",
+        "1": "17",
+        "2": "10",
         "3": "10",
         "4": "11"
       },
@@ -29776,15 +11240,15 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "14",
-        "5": "14",
+        "4": "13",
+        "5": "15",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "14",
-        "2": "14",
+        "1": "15",
+        "2": "13",
         "3": "19"
       },
       "HAB": {
@@ -29806,10 +11270,10 @@
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "17",
-        "2": "17",
+        "1": "21",
+        "2": "13",
         "3": "10",
-        "4": "16",
+        "4": "10",
         "5": "11",
         "6": "15",
         "7": "14",
@@ -29822,10 +11286,11 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "14",
         "2": "17",
-        "3": "24"
+        "3": "18",
+        "4": "6"
       },
       "MAT": {
         "numChapters": "28",
@@ -29875,7 +11340,7 @@
         "13": "37",
         "14": "72",
         "15": "47",
-        "16": "20"
+        "16": "10"
       },
       "LUK": {
         "numChapters": "24",
@@ -29912,7 +11377,7 @@
         "4": "54",
         "5": "47",
         "6": "71",
-        "7": "53",
+        "7": "52",
         "8": "59",
         "9": "41",
         "10": "42",
@@ -29939,7 +11404,7 @@
         "7": "60",
         "8": "40",
         "9": "43",
-        "10": "49",
+        "10": "48",
         "11": "30",
         "12": "25",
         "13": "52",
@@ -30131,49 +11596,571 @@
         "4": "21",
         "5": "21"
       },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "21",
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "ESG": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "73"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "35",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "13",
+        "16": "25"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "31",
+        "34": "26",
+        "35": "20",
+        "36": "26",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "23",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "21",
+        "6": "17",
+        "7": "18",
+        "8": "21",
+        "9": "6",
+        "10": "12",
+        "11": "18",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "20",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
       },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
       },
-      "JDE": {
+      "PAZ": {
         "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
+        "1": "68"
       }
     },
-    "omitted": {},
+    "omitted": {
+      "ISA": [
+        [
+          "38",
+          "7"
+        ],
+        [
+          "38",
+          "8"
+        ],
+        [
+          "38",
+          "9"
+        ],
+        [
+          "38",
+          "10"
+        ],
+        [
+          "38",
+          "11"
+        ],
+        [
+          "38",
+          "12"
+        ],
+        [
+          "38",
+          "13"
+        ],
+        [
+          "38",
+          "14"
+        ],
+        [
+          "38",
+          "15"
+        ],
+        [
+          "38",
+          "16"
+        ],
+        [
+          "38",
+          "17"
+        ],
+        [
+          "38",
+          "18"
+        ],
+        [
+          "38",
+          "19"
+        ],
+        [
+          "38",
+          "20"
+        ]
+      ],
+      "ZEC": [
+        [
+          "4",
+          "6"
+        ],
+        [
+          "4",
+          "7"
+        ],
+        [
+          "4",
+          "8"
+        ],
+        [
+          "4",
+          "9"
+        ]
+      ],
+      "MAT": [
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "11"
+        ],
+        [
+          "21",
+          "44"
+        ],
+        [
+          "23",
+          "14"
+        ]
+      ],
+      "MRK": [
+        [
+          "7",
+          "16"
+        ],
+        [
+          "9",
+          "44"
+        ],
+        [
+          "9",
+          "46"
+        ],
+        [
+          "11",
+          "26"
+        ],
+        [
+          "15",
+          "28"
+        ]
+      ],
+      "LUK": [
+        [
+          "17",
+          "36"
+        ],
+        [
+          "23",
+          "17"
+        ]
+      ],
+      "JHN": [
+        [
+          "5",
+          "4"
+        ]
+      ],
+      "ACT": [
+        [
+          "8",
+          "37"
+        ],
+        [
+          "15",
+          "34"
+        ],
+        [
+          "24",
+          "7"
+        ],
+        [
+          "28",
+          "29"
+        ]
+      ],
+      "ROM": [
+        [
+          "16",
+          "24"
+        ]
+      ],
+      "ESG": [
+        [
+          "4",
+          "6"
+        ],
+        [
+          "5",
+          "1"
+        ],
+        [
+          "5",
+          "2"
+        ]
+      ],
+      "SIR": [
+        [
+          "1",
+          "5"
+        ],
+        [
+          "1",
+          "7"
+        ],
+        [
+          "1",
+          "21"
+        ],
+        [
+          "3",
+          "19"
+        ],
+        [
+          "3",
+          "25"
+        ],
+        [
+          "10",
+          "21"
+        ],
+        [
+          "13",
+          "14"
+        ],
+        [
+          "16",
+          "15"
+        ],
+        [
+          "16",
+          "16"
+        ],
+        [
+          "17",
+          "5"
+        ],
+        [
+          "17",
+          "9"
+        ],
+        [
+          "17",
+          "16"
+        ],
+        [
+          "17",
+          "18"
+        ],
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "3"
+        ],
+        [
+          "19",
+          "18"
+        ],
+        [
+          "19",
+          "19"
+        ],
+        [
+          "19",
+          "21"
+        ],
+        [
+          "22",
+          "9"
+        ],
+        [
+          "22",
+          "10"
+        ],
+        [
+          "24",
+          "18"
+        ],
+        [
+          "24",
+          "24"
+        ],
+        [
+          "25",
+          "12"
+        ],
+        [
+          "26",
+          "19"
+        ],
+        [
+          "26",
+          "20"
+        ],
+        [
+          "26",
+          "21"
+        ],
+        [
+          "26",
+          "22"
+        ],
+        [
+          "26",
+          "23"
+        ],
+        [
+          "26",
+          "24"
+        ],
+        [
+          "26",
+          "25"
+        ],
+        [
+          "26",
+          "26"
+        ],
+        [
+          "26",
+          "27"
+        ]
+      ]
+    },
     "combined": {},
     "reordered": {}
   },
-  "BibMaxRef": {
+  "KJV": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -30208,7 +12195,7 @@
         "29": "35",
         "30": "43",
         "31": "55",
-        "32": "33",
+        "32": "32",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -30234,9 +12221,9 @@
         "2": "25",
         "3": "22",
         "4": "31",
-        "5": "24",
+        "5": "23",
         "6": "30",
-        "7": "29",
+        "7": "25",
         "8": "32",
         "9": "35",
         "10": "29",
@@ -30250,7 +12237,7 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "37",
+        "21": "36",
         "22": "31",
         "23": "33",
         "24": "18",
@@ -30277,7 +12264,7 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "26",
+        "5": "19",
         "6": "30",
         "7": "38",
         "8": "36",
@@ -30319,7 +12306,7 @@
         "14": "45",
         "15": "41",
         "16": "50",
-        "17": "28",
+        "17": "13",
         "18": "32",
         "19": "22",
         "20": "29",
@@ -30332,7 +12319,7 @@
         "27": "23",
         "28": "31",
         "29": "40",
-        "30": "17",
+        "30": "16",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -30354,7 +12341,7 @@
         "10": "22",
         "11": "32",
         "12": "32",
-        "13": "19",
+        "13": "18",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -30364,12 +12351,12 @@
         "20": "20",
         "21": "23",
         "22": "30",
-        "23": "26",
+        "23": "25",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "69",
+        "28": "68",
         "29": "29",
         "30": "20",
         "31": "30",
@@ -30457,10 +12444,10 @@
         "18": "30",
         "19": "24",
         "20": "42",
-        "21": "16",
+        "21": "15",
         "22": "23",
         "23": "29",
-        "24": "23",
+        "24": "22",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -30488,8 +12475,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "32",
-        "19": "44",
+        "18": "33",
+        "19": "43",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -30502,7 +12489,7 @@
         "2": "46",
         "3": "28",
         "4": "34",
-        "5": "32",
+        "5": "18",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -30517,9 +12504,9 @@
         "17": "24",
         "18": "46",
         "19": "21",
-        "20": "29",
-        "21": "43",
-        "22": "54"
+        "20": "43",
+        "21": "29",
+        "22": "53"
       },
       "KI2": {
         "numChapters": "25",
@@ -30534,7 +12521,7 @@
         "9": "37",
         "10": "36",
         "11": "21",
-        "12": "22",
+        "12": "21",
         "13": "25",
         "14": "29",
         "15": "38",
@@ -30555,14 +12542,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "41",
+        "5": "26",
         "6": "81",
         "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
         "11": "47",
-        "12": "41",
+        "12": "40",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -30583,7 +12570,7 @@
       },
       "CH2": {
         "numChapters": "36",
-        "1": "18",
+        "1": "17",
         "2": "18",
         "3": "17",
         "4": "22",
@@ -30595,8 +12582,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "23",
-        "14": "14",
+        "13": "22",
+        "14": "15",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -30621,7 +12608,7 @@
         "36": "23"
       },
       "EZR": {
-        "numChapters": "23",
+        "numChapters": "10",
         "1": "11",
         "2": "70",
         "3": "13",
@@ -30631,20 +12618,7 @@
         "7": "28",
         "8": "36",
         "9": "15",
-        "10": "44",
-        "11": "11",
-        "12": "20",
-        "13": "32",
-        "14": "23",
-        "15": "19",
-        "16": "19",
-        "17": "73",
-        "18": "18",
-        "19": "38",
-        "20": "39",
-        "21": "36",
-        "22": "47",
-        "23": "31"
+        "10": "44"
       },
       "NEH": {
         "numChapters": "13",
@@ -30716,163 +12690,162 @@
         "37": "24",
         "38": "41",
         "39": "30",
-        "40": "32",
-        "41": "26",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "151",
-        "1": "6",
-        "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
+        "40": "24",
+        "41": "34",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "12",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
+        "10": "18",
+        "11": "7",
+        "12": "8",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "12",
+        "31": "24",
+        "32": "11",
+        "33": "22",
+        "34": "22",
+        "35": "28",
+        "36": "12",
+        "37": "40",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
+        "43": "5",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
         "62": "12",
         "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
+        "64": "10",
+        "65": "13",
+        "66": "20",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "10",
+        "76": "12",
+        "77": "20",
+        "78": "72",
+        "79": "13",
+        "80": "19",
+        "81": "16",
+        "82": "8",
+        "83": "18",
+        "84": "12",
+        "85": "13",
+        "86": "17",
+        "87": "7",
+        "88": "18",
+        "89": "52",
         "90": "17",
         "91": "16",
         "92": "15",
-        "93": "23",
+        "93": "5",
         "94": "23",
-        "95": "13",
-        "96": "12",
-        "97": "9",
+        "95": "11",
+        "96": "13",
+        "97": "12",
         "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
+        "99": "9",
+        "100": "5",
+        "101": "8",
         "102": "28",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "13",
+        "109": "31",
+        "110": "7",
         "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
         "122": "9",
-        "123": "8",
+        "123": "4",
         "124": "8",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
         "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
+        "130": "8",
+        "131": "3",
+        "132": "18",
         "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "13",
+        "141": "10",
+        "142": "7",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
         "148": "14",
         "149": "9",
-        "150": "6",
-        "151": "7"
+        "150": "6"
       },
       "PRO": {
         "numChapters": "31",
@@ -30893,7 +12866,7 @@
         "15": "33",
         "16": "33",
         "17": "28",
-        "18": "22",
+        "18": "24",
         "19": "29",
         "20": "30",
         "21": "31",
@@ -30913,8 +12886,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "17",
-        "5": "19",
+        "4": "16",
+        "5": "20",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -30930,21 +12903,21 @@
         "3": "11",
         "4": "16",
         "5": "16",
-        "6": "12",
-        "7": "14",
+        "6": "13",
+        "7": "13",
         "8": "14"
       },
       "ISA": {
         "numChapters": "66",
         "1": "31",
-        "2": "21",
+        "2": "22",
         "3": "26",
         "4": "6",
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "23",
-        "9": "20",
+        "8": "22",
+        "9": "21",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -30991,7 +12964,7 @@
         "53": "12",
         "54": "17",
         "55": "13",
-        "56": "11",
+        "56": "12",
         "57": "21",
         "58": "14",
         "59": "21",
@@ -30999,7 +12972,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "11",
+        "64": "12",
         "65": "25",
         "66": "24"
       },
@@ -31012,8 +12985,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "23",
-        "9": "25",
+        "8": "22",
+        "9": "26",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -31029,33 +13002,33 @@
         "22": "30",
         "23": "40",
         "24": "10",
-        "25": "20",
-        "26": "28",
-        "27": "46",
-        "28": "64",
-        "29": "7",
-        "30": "33",
-        "31": "44",
-        "32": "38",
-        "33": "24",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
         "34": "22",
-        "35": "17",
+        "35": "19",
         "36": "32",
-        "37": "24",
-        "38": "40",
-        "39": "44",
-        "40": "13",
-        "41": "22",
-        "42": "19",
-        "43": "32",
-        "44": "21",
-        "45": "28",
-        "46": "18",
-        "47": "16",
-        "48": "18",
-        "49": "22",
-        "50": "13",
-        "51": "35",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
         "52": "34"
       },
       "LAM": {
@@ -31088,7 +13061,7 @@
         "18": "32",
         "19": "14",
         "20": "49",
-        "21": "37",
+        "21": "32",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -31121,10 +13094,10 @@
         "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "97",
+        "3": "30",
         "4": "37",
         "5": "31",
-        "6": "29",
+        "6": "28",
         "7": "28",
         "8": "27",
         "9": "27",
@@ -31135,7 +13108,7 @@
       "HOS": {
         "numChapters": "14",
         "1": "11",
-        "2": "25",
+        "2": "23",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -31145,16 +13118,15 @@
         "9": "17",
         "10": "15",
         "11": "12",
-        "12": "15",
+        "12": "14",
         "13": "16",
-        "14": "10"
+        "14": "9"
       },
       "JOL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "20",
         "2": "32",
-        "3": "21",
-        "4": "21"
+        "3": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -31175,7 +13147,7 @@
       "JNA": {
         "numChapters": "4",
         "1": "17",
-        "2": "11",
+        "2": "10",
         "3": "10",
         "4": "11"
       },
@@ -31184,57 +13156,281 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "14",
+        "4": "13",
         "5": "15",
         "6": "16",
         "7": "20"
       },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "14",
-        "3": "19"
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "70",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "22",
+        "6": "17",
+        "7": "18",
+        "8": "21",
+        "9": "6",
+        "10": "12",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "13",
+        "16": "25"
+      },
+      "ESA": {
+        "numChapters": "16",
+        "1": "1",
+        "2": "1",
+        "3": "1",
+        "4": "1",
+        "5": "1",
+        "6": "1",
+        "7": "1",
+        "8": "1",
+        "9": "1",
+        "10": "13",
+        "11": "12",
+        "12": "6",
+        "13": "18",
+        "14": "19",
+        "15": "16",
+        "16": "24"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "32",
+        "21": "28",
+        "22": "27",
+        "23": "28",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "31",
+        "34": "26",
+        "35": "20",
+        "36": "26",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "24",
+        "42": "25",
+        "43": "33",
+        "44": "22",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9",
+        "6": "73"
       },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
+      "PAZ": {
+        "numChapters": "1",
+        "1": "68"
       },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
       },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
       },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "17",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
+      "MAN": {
+        "numChapters": "1",
+        "1": "1"
       },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "24",
-        "4": "6"
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
       },
       "MAT": {
         "numChapters": "28",
@@ -31416,758 +13612,173 @@
         "6": "18",
         "7": "16",
         "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "14"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
-      "ESG": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "32",
-        "21": "28",
-        "22": "27",
-        "23": "28",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "31",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "27",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "72"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "73"
-      },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
-      "MA3": {
-        "numChapters": "7",
-        "1": "29",
-        "2": "33",
-        "3": "30",
-        "4": "21",
-        "5": "51",
-        "6": "41",
-        "7": "23"
-      },
-      "MA4": {
-        "numChapters": "18",
-        "1": "35",
-        "2": "24",
-        "3": "21",
-        "4": "26",
-        "5": "38",
-        "6": "35",
-        "7": "23",
-        "8": "29",
-        "9": "32",
-        "10": "21",
-        "11": "27",
-        "12": "19",
-        "13": "27",
-        "14": "20",
-        "15": "32",
-        "16": "25",
-        "17": "24",
-        "18": "24"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "14"
       },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
       },
-      "PS2": {
-        "numChapters": "1",
-        "1": "7"
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
       },
-      "ODE": {
-        "numChapters": "14",
-        "1": "19",
-        "2": "43",
-        "3": "10",
-        "4": "19",
-        "5": "12",
-        "6": "8",
-        "7": "20",
-        "8": "37",
-        "9": "22",
-        "10": "9",
-        "11": "11",
-        "12": "15",
-        "13": "4",
-        "14": "46"
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
       },
-      "PSS": {
-        "numChapters": "18",
-        "1": "8",
-        "2": "37",
-        "3": "12",
-        "4": "25",
-        "5": "19",
-        "6": "6",
-        "7": "10",
-        "8": "34",
-        "9": "11",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "12",
-        "14": "10",
-        "15": "13",
-        "16": "15",
-        "17": "46",
-        "18": "12"
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
       },
-      "DNG": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
       },
-      "PS3": {
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
         "numChapters": "4",
-        "1": "17",
-        "2": "20",
-        "3": "6",
-        "4": "6"
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
       },
-      "BA2": {
-        "numChapters": "77",
-        "1": "5",
-        "2": "2",
-        "3": "9",
-        "4": "7",
-        "5": "7",
-        "6": "10",
-        "7": "2",
-        "8": "5",
-        "9": "1",
-        "10": "19",
-        "11": "7",
-        "12": "5",
-        "13": "12",
-        "14": "19",
-        "15": "8",
-        "16": "1",
-        "17": "4",
-        "18": "2",
-        "19": "8",
-        "20": "6",
-        "21": "26",
-        "22": "8",
-        "23": "7",
-        "24": "4",
-        "25": "4",
-        "26": "1",
-        "27": "15",
-        "28": "7",
-        "29": "8",
-        "30": "5",
-        "31": "5",
-        "32": "9",
-        "33": "3",
-        "34": "1",
-        "35": "5",
-        "36": "10",
-        "37": "1",
-        "38": "4",
-        "39": "8",
-        "40": "4",
-        "41": "6",
-        "42": "8",
-        "43": "3",
-        "44": "15",
-        "45": "2",
-        "46": "7",
-        "47": "2",
-        "48": "50",
-        "49": "3",
-        "50": "4",
-        "51": "16",
-        "52": "8",
-        "53": "12",
-        "54": "22",
-        "55": "8",
-        "56": "16",
-        "57": "3",
-        "58": "2",
-        "59": "12",
-        "60": "2",
-        "61": "8",
-        "62": "8",
-        "63": "11",
-        "64": "10",
-        "65": "2",
-        "66": "8",
-        "67": "9",
-        "68": "8",
-        "69": "5",
-        "70": "10",
-        "71": "3",
-        "72": "6",
-        "73": "7",
-        "74": "4",
-        "75": "8",
-        "76": "5",
-        "77": "26"
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
       },
-      "LBA": {
-        "numChapters": "9",
-        "78": "7",
-        "79": "3",
-        "80": "7",
-        "81": "4",
-        "82": "9",
-        "83": "23",
-        "84": "11",
-        "85": "15",
-        "86": "3"
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
       },
-      "JUB": {
-        "numChapters": "34",
-        "1": "26",
-        "2": "17",
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
         "3": "19",
-        "4": "24",
-        "5": "36",
-        "6": "34",
-        "7": "37",
-        "8": "40",
-        "9": "27",
-        "10": "48",
-        "11": "39",
-        "12": "56",
-        "13": "34",
-        "14": "55",
-        "15": "20",
-        "16": "28",
-        "17": "30",
-        "18": "31",
-        "19": "59",
-        "20": "66",
-        "21": "30",
-        "22": "38",
-        "23": "59",
-        "24": "30",
-        "25": "50",
-        "26": "48",
-        "27": "37",
-        "28": "38",
-        "29": "27",
-        "30": "29",
-        "31": "31",
-        "32": "24",
-        "33": "30",
-        "34": "20"
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
       },
-      "ENO": {
-        "numChapters": "42",
-        "1": "28",
-        "2": "42",
-        "3": "30",
-        "4": "88",
-        "5": "40",
-        "6": "42",
-        "7": "39",
-        "8": "46",
-        "9": "42",
-        "10": "16",
-        "11": "19",
-        "12": "40",
-        "13": "34",
-        "14": "35",
-        "15": "45",
-        "16": "41",
-        "17": "69",
-        "18": "42",
-        "19": "29",
-        "20": "53",
-        "21": "57",
-        "22": "14",
-        "23": "26",
-        "24": "16",
-        "25": "30",
-        "26": "37",
-        "27": "21",
-        "28": "34",
-        "29": "28",
-        "30": "23",
-        "31": "29",
-        "32": "82",
-        "33": "59",
-        "34": "49",
-        "35": "36",
-        "36": "30",
-        "37": "34",
-        "38": "36",
-        "39": "24",
-        "40": "40",
-        "41": "22",
-        "42": "16"
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
       },
-      "MQ1": {
-        "numChapters": "36",
-        "1": "28",
-        "2": "28",
-        "3": "38",
-        "4": "37",
-        "5": "39",
-        "6": "38",
-        "7": "33",
-        "8": "35",
-        "9": "10",
-        "10": "8",
-        "11": "8",
-        "12": "44",
-        "13": "27",
-        "14": "23",
-        "15": "20",
-        "16": "9",
-        "17": "8",
-        "18": "12",
-        "19": "17",
-        "20": "4",
-        "21": "31",
-        "22": "11",
-        "23": "7",
-        "24": "22",
-        "25": "18",
-        "26": "5",
-        "27": "20",
-        "28": "49",
-        "29": "17",
-        "30": "16",
-        "31": "7",
-        "32": "4",
-        "33": "11",
-        "34": "18",
-        "35": "8",
-        "36": "46"
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
       },
-      "MQ2": {
-        "numChapters": "20",
-        "1": "13",
-        "2": "11",
-        "3": "29",
-        "4": "32",
-        "5": "18",
-        "6": "24",
-        "7": "9",
-        "8": "24",
-        "9": "27",
-        "10": "28",
-        "11": "25",
-        "12": "15",
-        "13": "14",
-        "14": "36",
-        "15": "21",
-        "16": "15",
-        "17": "12",
-        "18": "14",
-        "19": "15",
-        "20": "14"
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
       },
-      "MQ3": {
-        "numChapters": "10",
-        "1": "24",
-        "2": "23",
-        "3": "11",
-        "4": "36",
-        "5": "16",
-        "6": "16",
-        "7": "5",
-        "8": "12",
-        "9": "36",
-        "10": "29"
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
       },
-      "REP": {
-        "numChapters": "6",
-        "1": "28",
-        "2": "28",
-        "3": "27",
-        "4": "28",
-        "5": "27",
-        "6": "22"
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
       },
-      "BA4": {
-        "numChapters": "5",
-        "1": "30",
+      "JN3": {
+        "numChapters": "1",
+        "1": "14"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
         "2": "29",
-        "3": "30",
-        "4": "33",
-        "5": "62"
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "17",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
       }
     },
     "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "Synodal": {
+  "Luther": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -32201,8 +13812,8 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "55",
-        "32": "32",
+        "31": "54",
+        "32": "33",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -32230,8 +13841,8 @@
         "4": "31",
         "5": "23",
         "6": "30",
-        "7": "25",
-        "8": "32",
+        "7": "29",
+        "8": "28",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -32244,8 +13855,8 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "36",
-        "22": "31",
+        "21": "37",
+        "22": "30",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -32271,8 +13882,8 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "19",
-        "6": "30",
+        "5": "26",
+        "6": "23",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -32280,7 +13891,7 @@
         "11": "47",
         "12": "8",
         "13": "59",
-        "14": "56",
+        "14": "57",
         "15": "33",
         "16": "34",
         "17": "16",
@@ -32308,12 +13919,12 @@
         "9": "23",
         "10": "36",
         "11": "35",
-        "12": "15",
-        "13": "34",
+        "12": "16",
+        "13": "33",
         "14": "45",
         "15": "41",
-        "16": "50",
-        "17": "13",
+        "16": "35",
+        "17": "28",
         "18": "32",
         "19": "22",
         "20": "29",
@@ -32321,7 +13932,7 @@
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "18",
+        "25": "19",
         "26": "65",
         "27": "23",
         "28": "31",
@@ -32347,8 +13958,8 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "32",
-        "13": "18",
+        "12": "31",
+        "13": "19",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -32357,14 +13968,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "30",
-        "23": "25",
+        "22": "29",
+        "23": "26",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "68",
-        "29": "29",
+        "28": "69",
+        "29": "28",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -32377,8 +13988,8 @@
         "2": "24",
         "3": "17",
         "4": "24",
-        "5": "16",
-        "6": "26",
+        "5": "15",
+        "6": "27",
         "7": "26",
         "8": "35",
         "9": "27",
@@ -32396,7 +14007,7 @@
         "21": "45",
         "22": "34",
         "23": "16",
-        "24": "36"
+        "24": "33"
       },
       "JDG": {
         "numChapters": "21",
@@ -32450,8 +14061,8 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "43",
-        "21": "15",
+        "20": "42",
+        "21": "16",
         "22": "23",
         "23": "28",
         "24": "23",
@@ -32482,8 +14093,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "33",
-        "19": "43",
+        "18": "32",
+        "19": "44",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -32495,8 +14106,8 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "34",
-        "5": "18",
+        "4": "20",
+        "5": "32",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -32513,7 +14124,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "53"
+        "22": "54"
       },
       "KI2": {
         "numChapters": "25",
@@ -32527,11 +14138,11 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "21",
-        "12": "21",
+        "11": "20",
+        "12": "22",
         "13": "25",
         "14": "29",
-        "15": "38",
+        "15": "39",
         "16": "20",
         "17": "41",
         "18": "37",
@@ -32549,14 +14160,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "26",
-        "6": "81",
+        "5": "41",
+        "6": "66",
         "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
         "11": "47",
-        "12": "40",
+        "12": "41",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -32577,8 +14188,8 @@
       },
       "CH2": {
         "numChapters": "36",
-        "1": "17",
-        "2": "18",
+        "1": "18",
+        "2": "17",
         "3": "17",
         "4": "22",
         "5": "14",
@@ -32589,8 +14200,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "22",
-        "14": "15",
+        "13": "23",
+        "14": "14",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -32614,10 +14225,6 @@
         "35": "27",
         "36": "23"
       },
-      "MAN": {
-        "numChapters": "1",
-        "1": "12"
-      },
       "EZR": {
         "numChapters": "10",
         "1": "11",
@@ -32635,66 +14242,18 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "32",
-        "4": "23",
+        "3": "38",
+        "4": "17",
         "5": "19",
         "6": "19",
         "7": "73",
         "8": "18",
-        "9": "38",
-        "10": "39",
+        "9": "37",
+        "10": "40",
         "11": "36",
         "12": "47",
         "13": "31"
       },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "31",
-        "3": "24",
-        "4": "63",
-        "5": "70",
-        "6": "34",
-        "7": "15",
-        "8": "92",
-        "9": "55"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "22",
-        "6": "18",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "13",
-        "11": "18",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
       "EST": {
         "numChapters": "10",
         "1": "22",
@@ -32748,13 +14307,13 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "35",
-        "40": "27",
+        "39": "30",
+        "40": "32",
         "41": "26",
         "42": "17"
       },
       "PSA": {
-        "numChapters": "151",
+        "numChapters": "150",
         "1": "6",
         "2": "12",
         "3": "9",
@@ -32763,156 +14322,155 @@
         "6": "11",
         "7": "18",
         "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
+        "9": "21",
+        "10": "18",
+        "11": "7",
+        "12": "9",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "51",
+        "19": "15",
+        "20": "10",
+        "21": "14",
+        "22": "32",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "13",
+        "31": "25",
+        "32": "11",
+        "33": "22",
+        "34": "23",
+        "35": "28",
+        "36": "13",
+        "37": "40",
+        "38": "23",
+        "39": "14",
+        "40": "18",
+        "41": "14",
+        "42": "12",
+        "43": "5",
+        "44": "27",
+        "45": "18",
+        "46": "12",
+        "47": "10",
+        "48": "15",
+        "49": "21",
+        "50": "23",
+        "51": "21",
+        "52": "11",
+        "53": "7",
+        "54": "9",
+        "55": "24",
+        "56": "14",
         "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
+        "58": "12",
+        "59": "18",
+        "60": "14",
+        "61": "9",
+        "62": "13",
+        "63": "12",
+        "64": "11",
+        "65": "14",
+        "66": "20",
+        "67": "8",
+        "68": "36",
+        "69": "37",
+        "70": "6",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "11",
+        "76": "13",
+        "77": "21",
+        "78": "72",
+        "79": "13",
+        "80": "20",
+        "81": "17",
+        "82": "8",
+        "83": "19",
+        "84": "13",
+        "85": "14",
+        "86": "17",
+        "87": "7",
+        "88": "19",
+        "89": "53",
+        "90": "17",
         "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
+        "92": "16",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
         "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "29",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "14",
+        "109": "31",
+        "110": "7",
         "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
         "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
+        "130": "8",
+        "131": "3",
+        "132": "18",
         "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "7",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "14",
+        "141": "10",
+        "142": "8",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
         "148": "14",
         "149": "9",
-        "150": "6",
-        "151": "7"
+        "150": "6"
       },
       "PRO": {
         "numChapters": "31",
         "1": "33",
         "2": "22",
         "3": "35",
-        "4": "29",
+        "4": "27",
         "5": "23",
         "6": "35",
         "7": "27",
@@ -32921,12 +14479,12 @@
         "10": "32",
         "11": "31",
         "12": "28",
-        "13": "26",
+        "13": "25",
         "14": "35",
         "15": "33",
         "16": "33",
         "17": "28",
-        "18": "25",
+        "18": "24",
         "19": "29",
         "20": "30",
         "21": "31",
@@ -32958,7 +14516,7 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "16",
+        "1": "17",
         "2": "17",
         "3": "11",
         "4": "16",
@@ -32967,93 +14525,17 @@
         "7": "14",
         "8": "14"
       },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "24",
-        "6": "27",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "27",
-        "12": "28",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "20",
-        "18": "25",
-        "19": "21"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "35",
-        "5": "18",
-        "6": "37",
-        "7": "39",
-        "8": "22",
-        "9": "23",
-        "10": "34",
-        "11": "34",
-        "12": "18",
-        "13": "32",
-        "14": "27",
-        "15": "20",
-        "16": "31",
-        "17": "31",
-        "18": "33",
-        "19": "28",
-        "20": "31",
-        "21": "31",
-        "22": "31",
-        "23": "37",
-        "24": "37",
-        "25": "29",
-        "26": "27",
-        "27": "33",
-        "28": "30",
-        "29": "31",
-        "30": "27",
-        "31": "37",
-        "32": "25",
-        "33": "33",
-        "34": "26",
-        "35": "23",
-        "36": "29",
-        "37": "34",
-        "38": "39",
-        "39": "42",
-        "40": "32",
-        "41": "29",
-        "42": "26",
-        "43": "36",
-        "44": "27",
-        "45": "31",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "18",
-        "50": "31",
-        "51": "38"
-      },
       "ISA": {
         "numChapters": "66",
         "1": "31",
         "2": "22",
-        "3": "25",
+        "3": "26",
         "4": "6",
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "22",
-        "9": "21",
+        "8": "23",
+        "9": "20",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -33108,7 +14590,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "12",
+        "64": "11",
         "65": "25",
         "66": "24"
       },
@@ -33121,8 +14603,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "22",
-        "9": "26",
+        "8": "23",
+        "9": "25",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -33175,18 +14657,6 @@
         "4": "22",
         "5": "22"
       },
-      "LJE": {
-        "numChapters": "1",
-        "1": "72"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9"
-      },
       "EZE": {
         "numChapters": "48",
         "1": "28",
@@ -33208,8 +14678,8 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "49",
-        "21": "32",
+        "20": "44",
+        "21": "37",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -33239,26 +14709,24 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "14",
+        "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "100",
+        "3": "33",
         "4": "34",
-        "5": "31",
-        "6": "28",
+        "5": "30",
+        "6": "29",
         "7": "28",
         "8": "27",
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
+        "12": "13"
       },
       "HOS": {
         "numChapters": "14",
-        "1": "11",
-        "2": "23",
+        "1": "9",
+        "2": "25",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -33267,16 +14735,17 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "12",
-        "12": "14",
+        "11": "11",
+        "12": "15",
         "13": "15",
         "14": "10"
       },
       "JOL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "20",
-        "2": "32",
-        "3": "21"
+        "2": "27",
+        "3": "5",
+        "4": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -33306,15 +14775,15 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "13",
-        "5": "15",
+        "4": "14",
+        "5": "14",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "15",
-        "2": "13",
+        "1": "14",
+        "2": "14",
         "3": "19"
       },
       "HAB": {
@@ -33336,8 +14805,8 @@
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "21",
-        "2": "13",
+        "1": "17",
+        "2": "17",
         "3": "10",
         "4": "14",
         "5": "11",
@@ -33352,15 +14821,135 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "14",
         "2": "17",
-        "3": "18",
-        "4": "6"
+        "3": "24"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "11",
+        "2": "18",
+        "3": "12",
+        "4": "14",
+        "5": "26",
+        "6": "20",
+        "7": "24",
+        "8": "28",
+        "9": "15",
+        "10": "21",
+        "11": "17",
+        "12": "21",
+        "13": "31",
+        "14": "16",
+        "15": "16",
+        "16": "31"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "25",
+        "3": "19",
+        "4": "20",
+        "5": "24",
+        "6": "27",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "21"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "25",
+        "2": "23",
+        "3": "25",
+        "4": "22",
+        "5": "29",
+        "6": "23",
+        "7": "20",
+        "8": "23",
+        "9": "12",
+        "10": "13",
+        "11": "20",
+        "12": "22",
+        "13": "22",
+        "14": "17"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "38",
+        "2": "23",
+        "3": "34",
+        "4": "36",
+        "5": "18",
+        "6": "37",
+        "7": "40",
+        "8": "22",
+        "9": "25",
+        "10": "34",
+        "11": "35",
+        "12": "19",
+        "13": "32",
+        "14": "27",
+        "15": "21",
+        "16": "30",
+        "17": "31",
+        "18": "33",
+        "19": "27",
+        "20": "33",
+        "21": "31",
+        "22": "33",
+        "23": "37",
+        "24": "47",
+        "25": "34",
+        "26": "28",
+        "27": "33",
+        "28": "30",
+        "29": "35",
+        "30": "27",
+        "31": "40",
+        "32": "28",
+        "33": "32",
+        "34": "31",
+        "35": "26",
+        "36": "28",
+        "37": "34",
+        "38": "39",
+        "39": "41",
+        "40": "32",
+        "41": "29",
+        "42": "26",
+        "43": "37",
+        "44": "26",
+        "45": "32",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "20",
+        "50": "31",
+        "51": "38"
+      },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9",
+        "6": "73"
       },
       "MA1": {
         "numChapters": "16",
-        "1": "64",
+        "1": "68",
         "2": "70",
         "3": "60",
         "4": "61",
@@ -33371,8 +14960,8 @@
         "9": "73",
         "10": "89",
         "11": "74",
-        "12": "53",
-        "13": "53",
+        "12": "54",
+        "13": "54",
         "14": "49",
         "15": "41",
         "16": "24"
@@ -33390,39 +14979,30 @@
         "9": "29",
         "10": "38",
         "11": "38",
-        "12": "45",
+        "12": "46",
         "13": "26",
         "14": "46",
-        "15": "39"
+        "15": "40"
       },
-      "MA3": {
+      "ESA": {
         "numChapters": "7",
-        "1": "25",
-        "2": "24",
-        "3": "22",
-        "4": "16",
-        "5": "36",
-        "6": "37",
-        "7": "20"
+        "1": "4",
+        "2": "8",
+        "3": "12",
+        "4": "12",
+        "5": "16",
+        "6": "9",
+        "7": "8"
       },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "70",
-        "8": "63",
-        "9": "47",
-        "10": "60",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
+      "DNA": {
+        "numChapters": "3",
+        "1": "64",
+        "2": "41",
+        "3": "66"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "16"
       },
       "MAT": {
         "numChapters": "28",
@@ -33556,48 +15136,6 @@
         "27": "44",
         "28": "31"
       },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
       "ROM": {
         "numChapters": "16",
         "1": "32",
@@ -33613,9 +15151,9 @@
         "11": "36",
         "12": "21",
         "13": "14",
-        "14": "26",
+        "14": "23",
         "15": "33",
-        "16": "24"
+        "16": "27"
       },
       "CO1": {
         "numChapters": "16",
@@ -33648,7 +15186,7 @@
         "8": "24",
         "9": "15",
         "10": "18",
-        "11": "32",
+        "11": "33",
         "12": "21",
         "13": "13"
       },
@@ -33724,6 +15262,36 @@
         "numChapters": "1",
         "1": "25"
       },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
       "HEB": {
         "numChapters": "13",
         "1": "14",
@@ -33740,6 +15308,18 @@
         "12": "29",
         "13": "25"
       },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
       "REV": {
         "numChapters": "22",
         "1": "20",
@@ -33753,7 +15333,7 @@
         "9": "21",
         "10": "11",
         "11": "19",
-        "12": "17",
+        "12": "18",
         "13": "18",
         "14": "20",
         "15": "8",
@@ -33770,7 +15350,7 @@
     "combined": {},
     "reordered": {}
   },
-  "GNTUK": {
+  "NIV84": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -33987,7 +15567,7 @@
         "9": "27",
         "10": "43",
         "11": "23",
-        "12": "24",
+        "12": "8",
         "13": "33",
         "14": "15",
         "15": "63",
@@ -34172,8 +15752,7 @@
         "22": "19",
         "23": "32",
         "24": "31",
-        "25": "31",
-        "26": "32",
+        "25": "32",
         "27": "34",
         "28": "21",
         "29": "30"
@@ -34556,7 +16135,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "20",
+        "38": "22",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -34799,7 +16378,7 @@
         "1": "21",
         "2": "13",
         "3": "10",
-        "4": "10",
+        "4": "14",
         "5": "11",
         "6": "15",
         "7": "14",
@@ -34866,7 +16445,7 @@
         "13": "37",
         "14": "72",
         "15": "47",
-        "16": "10"
+        "16": "20"
       },
       "LUK": {
         "numChapters": "24",
@@ -34903,7 +16482,7 @@
         "4": "54",
         "5": "47",
         "6": "71",
-        "7": "52",
+        "7": "53",
         "8": "59",
         "9": "41",
         "10": "42",
@@ -35002,7 +16581,7 @@
         "10": "18",
         "11": "33",
         "12": "21",
-        "13": "13"
+        "13": "14"
       },
       "GAL": {
         "numChapters": "6",
@@ -35128,7 +16707,7 @@
       },
       "JN3": {
         "numChapters": "1",
-        "1": "15"
+        "1": "14"
       },
       "JDE": {
         "numChapters": "1",
@@ -35147,7 +16726,7 @@
         "9": "21",
         "10": "11",
         "11": "19",
-        "12": "18",
+        "12": "17",
         "13": "18",
         "14": "20",
         "15": "8",
@@ -35158,304 +16737,311 @@
         "20": "15",
         "21": "27",
         "22": "21"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "21",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "ESG": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "73"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "35",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "13",
-        "16": "25"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "31",
-        "34": "26",
-        "35": "20",
-        "36": "26",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "23",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "21",
-        "6": "17",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "12",
-        "11": "18",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "20",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
-      },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
       }
     },
     "omitted": {
-      "ISA": [
+      "EZR": [
         [
-          "38",
+          "1",
+          "10"
+        ],
+        [
+          "2",
+          "3"
+        ],
+        [
+          "2",
+          "4"
+        ],
+        [
+          "2",
+          "5"
+        ],
+        [
+          "2",
+          "6"
+        ],
+        [
+          "2",
           "7"
         ],
         [
-          "38",
+          "2",
           "8"
         ],
         [
-          "38",
+          "2",
           "9"
         ],
         [
-          "38",
+          "2",
           "10"
         ],
         [
-          "38",
+          "2",
           "11"
         ],
         [
-          "38",
+          "2",
           "12"
         ],
         [
-          "38",
+          "2",
           "13"
         ],
         [
-          "38",
+          "2",
           "14"
         ],
         [
-          "38",
+          "2",
           "15"
         ],
         [
-          "38",
+          "2",
           "16"
         ],
         [
-          "38",
+          "2",
           "17"
         ],
         [
-          "38",
+          "2",
           "18"
         ],
         [
-          "38",
+          "2",
           "19"
         ],
         [
-          "38",
+          "2",
           "20"
+        ],
+        [
+          "2",
+          "21"
+        ],
+        [
+          "2",
+          "22"
+        ],
+        [
+          "2",
+          "23"
+        ],
+        [
+          "2",
+          "24"
+        ],
+        [
+          "2",
+          "25"
+        ],
+        [
+          "2",
+          "26"
+        ],
+        [
+          "2",
+          "27"
+        ],
+        [
+          "2",
+          "28"
+        ],
+        [
+          "2",
+          "29"
+        ],
+        [
+          "2",
+          "30"
+        ],
+        [
+          "2",
+          "31"
+        ],
+        [
+          "2",
+          "32"
+        ],
+        [
+          "2",
+          "33"
+        ],
+        [
+          "2",
+          "34"
+        ],
+        [
+          "2",
+          "35"
+        ],
+        [
+          "2",
+          "37"
+        ],
+        [
+          "2",
+          "38"
+        ],
+        [
+          "2",
+          "39"
+        ],
+        [
+          "2",
+          "58"
+        ],
+        [
+          "2",
+          "60"
         ]
       ],
-      "ZEC": [
+      "NEH": [
         [
-          "4",
-          "6"
+          "7",
+          "8"
+        ],
+        [
+          "7",
+          "9"
+        ],
+        [
+          "7",
+          "10"
+        ],
+        [
+          "7",
+          "11"
+        ],
+        [
+          "7",
+          "12"
+        ],
+        [
+          "7",
+          "13"
+        ],
+        [
+          "7",
+          "14"
+        ],
+        [
+          "7",
+          "15"
+        ],
+        [
+          "7",
+          "16"
+        ],
+        [
+          "7",
+          "17"
+        ],
+        [
+          "7",
+          "18"
+        ],
+        [
+          "7",
+          "19"
+        ],
+        [
+          "7",
+          "20"
+        ],
+        [
+          "7",
+          "21"
+        ],
+        [
+          "7",
+          "22"
+        ],
+        [
+          "7",
+          "23"
+        ],
+        [
+          "7",
+          "24"
+        ],
+        [
+          "7",
+          "25"
+        ],
+        [
+          "7",
+          "26"
+        ],
+        [
+          "7",
+          "27"
+        ],
+        [
+          "7",
+          "28"
+        ],
+        [
+          "7",
+          "29"
+        ],
+        [
+          "7",
+          "30"
+        ],
+        [
+          "7",
+          "31"
+        ],
+        [
+          "7",
+          "32"
+        ],
+        [
+          "7",
+          "33"
+        ],
+        [
+          "7",
+          "34"
+        ],
+        [
+          "7",
+          "35"
+        ],
+        [
+          "7",
+          "36"
+        ],
+        [
+          "7",
+          "37"
+        ],
+        [
+          "7",
+          "38"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
         ],
         [
-          "4",
-          "7"
+          "7",
+          "42"
         ],
         [
-          "4",
-          "8"
+          "7",
+          "60"
         ],
         [
-          "4",
-          "9"
+          "7",
+          "62"
         ]
       ],
       "MAT": [
@@ -35467,10 +17053,6 @@
           "18",
           "11"
         ],
-        [
-          "21",
-          "44"
-        ],
         [
           "23",
           "14"
@@ -35537,156 +17119,12 @@
           "16",
           "24"
         ]
-      ],
-      "ESG": [
-        [
-          "4",
-          "6"
-        ],
-        [
-          "5",
-          "1"
-        ],
-        [
-          "5",
-          "2"
-        ]
-      ],
-      "SIR": [
-        [
-          "1",
-          "5"
-        ],
-        [
-          "1",
-          "7"
-        ],
-        [
-          "1",
-          "21"
-        ],
-        [
-          "3",
-          "19"
-        ],
-        [
-          "3",
-          "25"
-        ],
-        [
-          "10",
-          "21"
-        ],
-        [
-          "13",
-          "14"
-        ],
-        [
-          "16",
-          "15"
-        ],
-        [
-          "16",
-          "16"
-        ],
-        [
-          "17",
-          "5"
-        ],
-        [
-          "17",
-          "9"
-        ],
-        [
-          "17",
-          "16"
-        ],
-        [
-          "17",
-          "18"
-        ],
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "3"
-        ],
-        [
-          "19",
-          "18"
-        ],
-        [
-          "19",
-          "19"
-        ],
-        [
-          "19",
-          "21"
-        ],
-        [
-          "22",
-          "9"
-        ],
-        [
-          "22",
-          "10"
-        ],
-        [
-          "24",
-          "18"
-        ],
-        [
-          "24",
-          "24"
-        ],
-        [
-          "25",
-          "12"
-        ],
-        [
-          "26",
-          "19"
-        ],
-        [
-          "26",
-          "20"
-        ],
-        [
-          "26",
-          "21"
-        ],
-        [
-          "26",
-          "22"
-        ],
-        [
-          "26",
-          "23"
-        ],
-        [
-          "26",
-          "24"
-        ],
-        [
-          "26",
-          "25"
-        ],
-        [
-          "26",
-          "26"
-        ],
-        [
-          "26",
-          "27"
-        ]
       ]
     },
     "combined": {},
     "reordered": {}
   },
-  "Vulgate2": {
+  "NLT96": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -35738,8 +17176,8 @@
         "46": "34",
         "47": "31",
         "48": "22",
-        "49": "32",
-        "50": "25"
+        "49": "33",
+        "50": "26"
       },
       "EXO": {
         "numChapters": "40",
@@ -35782,7 +17220,7 @@
         "37": "29",
         "38": "31",
         "39": "43",
-        "40": "36"
+        "40": "38"
       },
       "LEV": {
         "numChapters": "27",
@@ -35811,7 +17249,7 @@
         "23": "44",
         "24": "23",
         "25": "55",
-        "26": "45",
+        "26": "46",
         "27": "34"
       },
       "NUM": {
@@ -35826,16 +17264,16 @@
         "8": "26",
         "9": "23",
         "10": "36",
-        "11": "34",
-        "12": "15",
-        "13": "34",
+        "11": "35",
+        "12": "16",
+        "13": "33",
         "14": "45",
         "15": "41",
         "16": "50",
         "17": "13",
         "18": "32",
         "19": "22",
-        "20": "30",
+        "20": "29",
         "21": "35",
         "22": "41",
         "23": "30",
@@ -35844,8 +17282,8 @@
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "39",
-        "30": "17",
+        "29": "40",
+        "30": "16",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -35895,8 +17333,8 @@
         "1": "18",
         "2": "24",
         "3": "17",
-        "4": "25",
-        "5": "16",
+        "4": "24",
+        "5": "15",
         "6": "27",
         "7": "26",
         "8": "35",
@@ -35912,7 +17350,7 @@
         "18": "28",
         "19": "51",
         "20": "9",
-        "21": "43",
+        "21": "45",
         "22": "34",
         "23": "16",
         "24": "33"
@@ -35923,7 +17361,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "32",
+        "5": "31",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -35939,7 +17377,7 @@
         "18": "31",
         "19": "30",
         "20": "48",
-        "21": "24"
+        "21": "25"
       },
       "RUT": {
         "numChapters": "4",
@@ -35969,11 +17407,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "43",
+        "20": "42",
         "21": "15",
         "22": "23",
-        "23": "28",
-        "24": "23",
+        "23": "29",
+        "24": "22",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -36032,7 +17470,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "54"
+        "22": "53"
       },
       "KI2": {
         "numChapters": "25",
@@ -36074,7 +17512,7 @@
         "8": "40",
         "9": "44",
         "10": "14",
-        "11": "46",
+        "11": "47",
         "12": "40",
         "13": "14",
         "14": "17",
@@ -36083,7 +17521,7 @@
         "17": "27",
         "18": "17",
         "19": "19",
-        "20": "7",
+        "20": "8",
         "21": "30",
         "22": "19",
         "23": "32",
@@ -36108,8 +17546,7 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "22",
-        "14": "15",
+        "13": "15",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -36123,11 +17560,11 @@
         "25": "28",
         "26": "23",
         "27": "9",
-        "28": "27",
+        "28": "26",
         "29": "36",
         "30": "27",
         "31": "21",
-        "32": "33",
+        "32": "32",
         "33": "25",
         "34": "33",
         "35": "27",
@@ -36150,7 +17587,7 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "31",
+        "3": "32",
         "4": "23",
         "5": "19",
         "6": "19",
@@ -36159,11 +17596,11 @@
         "9": "38",
         "10": "39",
         "11": "36",
-        "12": "46",
+        "12": "47",
         "13": "31"
       },
       "EST": {
-        "numChapters": "16",
+        "numChapters": "10",
         "1": "22",
         "2": "23",
         "3": "15",
@@ -36173,13 +17610,7 @@
         "7": "10",
         "8": "17",
         "9": "32",
-        "10": "13",
-        "11": "12",
-        "12": "6",
-        "13": "18",
-        "14": "19",
-        "15": "19",
-        "16": "24"
+        "10": "3"
       },
       "JOB": {
         "numChapters": "42",
@@ -36198,7 +17629,7 @@
         "13": "28",
         "14": "22",
         "15": "35",
-        "16": "23",
+        "16": "22",
         "17": "16",
         "18": "21",
         "19": "29",
@@ -36221,159 +17652,159 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "35",
-        "40": "28",
-        "41": "25",
-        "42": "16"
+        "39": "30",
+        "40": "24",
+        "41": "34",
+        "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
-        "2": "13",
-        "3": "9",
-        "4": "10",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "10",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "26",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "13",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
+        "2": "12",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
+        "10": "18",
+        "11": "7",
+        "12": "8",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "12",
+        "31": "24",
+        "32": "11",
+        "33": "22",
+        "34": "22",
+        "35": "28",
+        "36": "12",
+        "37": "40",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
+        "43": "5",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
         "62": "12",
         "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
+        "64": "10",
+        "65": "13",
+        "66": "20",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "10",
+        "76": "12",
+        "77": "20",
+        "78": "72",
+        "79": "13",
+        "80": "19",
+        "81": "16",
+        "82": "8",
+        "83": "18",
+        "84": "12",
+        "85": "13",
+        "86": "17",
+        "87": "7",
+        "88": "18",
+        "89": "52",
+        "90": "17",
         "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
+        "92": "15",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
         "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "28",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "13",
+        "109": "31",
+        "110": "7",
         "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "19",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
         "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
+        "130": "8",
+        "131": "3",
+        "132": "18",
         "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "13",
+        "141": "10",
+        "142": "7",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
         "147": "20",
         "148": "14",
         "149": "9",
@@ -36418,10 +17849,10 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "17",
-        "5": "19",
-        "6": "11",
-        "7": "30",
+        "4": "16",
+        "5": "20",
+        "6": "12",
+        "7": "29",
         "8": "17",
         "9": "18",
         "10": "20",
@@ -36430,12 +17861,12 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "16",
+        "1": "17",
         "2": "17",
         "3": "11",
         "4": "16",
-        "5": "17",
-        "6": "12",
+        "5": "16",
+        "6": "13",
         "7": "13",
         "8": "14"
       },
@@ -36546,7 +17977,7 @@
         "34": "22",
         "35": "19",
         "36": "32",
-        "37": "20",
+        "37": "21",
         "38": "28",
         "39": "18",
         "40": "16",
@@ -36574,7 +18005,7 @@
       "EZE": {
         "numChapters": "48",
         "1": "28",
-        "2": "9",
+        "2": "10",
         "3": "27",
         "4": "17",
         "5": "17",
@@ -36623,11 +18054,11 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "14",
+        "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "100",
-        "4": "34",
+        "3": "30",
+        "4": "37",
         "5": "31",
         "6": "28",
         "7": "28",
@@ -36635,14 +18066,12 @@
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13",
-        "13": "65",
-        "14": "41"
+        "12": "13"
       },
       "HOS": {
         "numChapters": "14",
         "1": "11",
-        "2": "24",
+        "2": "23",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -36653,8 +18082,8 @@
         "10": "15",
         "11": "12",
         "12": "14",
-        "13": "15",
-        "14": "10"
+        "13": "16",
+        "14": "9"
       },
       "JOL": {
         "numChapters": "3",
@@ -36669,7 +18098,7 @@
         "3": "15",
         "4": "13",
         "5": "27",
-        "6": "15",
+        "6": "14",
         "7": "17",
         "8": "14",
         "9": "15"
@@ -36680,8 +18109,8 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "16",
-        "2": "11",
+        "1": "17",
+        "2": "10",
         "3": "10",
         "4": "11"
       },
@@ -36691,7 +18120,7 @@
         "2": "13",
         "3": "12",
         "4": "13",
-        "5": "14",
+        "5": "15",
         "6": "16",
         "7": "20"
       },
@@ -36715,8 +18144,8 @@
       },
       "HAG": {
         "numChapters": "2",
-        "1": "14",
-        "2": "24"
+        "1": "15",
+        "2": "23"
       },
       "ZEC": {
         "numChapters": "14",
@@ -36760,7 +18189,7 @@
         "14": "36",
         "15": "39",
         "16": "28",
-        "17": "26",
+        "17": "27",
         "18": "35",
         "19": "30",
         "20": "34",
@@ -36778,12 +18207,12 @@
         "1": "45",
         "2": "28",
         "3": "35",
-        "4": "40",
+        "4": "41",
         "5": "43",
         "6": "56",
         "7": "37",
-        "8": "39",
-        "9": "49",
+        "8": "38",
+        "9": "50",
         "10": "52",
         "11": "33",
         "12": "44",
@@ -36826,7 +18255,7 @@
         "3": "36",
         "4": "54",
         "5": "47",
-        "6": "72",
+        "6": "71",
         "7": "53",
         "8": "59",
         "9": "41",
@@ -36851,19 +18280,19 @@
         "4": "37",
         "5": "42",
         "6": "15",
-        "7": "59",
+        "7": "60",
         "8": "40",
         "9": "43",
         "10": "48",
         "11": "30",
         "12": "25",
         "13": "52",
-        "14": "27",
+        "14": "28",
         "15": "41",
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "40",
+        "19": "41",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -37082,214 +18511,400 @@
         "20": "15",
         "21": "27",
         "22": "21"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "25",
-        "2": "23",
-        "3": "25",
-        "4": "23",
-        "5": "28",
-        "6": "22",
-        "7": "20",
-        "8": "24",
-        "9": "12",
-        "10": "13",
-        "11": "21",
-        "12": "22",
-        "13": "23",
-        "14": "17"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "12",
-        "2": "18",
-        "3": "15",
-        "4": "17",
-        "5": "29",
-        "6": "21",
-        "7": "25",
-        "8": "34",
-        "9": "19",
-        "10": "20",
-        "11": "21",
-        "12": "20",
-        "13": "31",
-        "14": "18",
-        "15": "15",
-        "16": "31"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "25",
-        "3": "19",
-        "4": "20",
-        "5": "24",
-        "6": "27",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "27",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "20",
-        "18": "25",
-        "19": "20"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "40",
-        "2": "23",
-        "3": "34",
-        "4": "36",
-        "5": "18",
-        "6": "37",
-        "7": "40",
-        "8": "22",
-        "9": "25",
-        "10": "34",
-        "11": "36",
-        "12": "19",
-        "13": "32",
-        "14": "27",
-        "15": "22",
-        "16": "31",
-        "17": "31",
-        "18": "33",
-        "19": "28",
-        "20": "33",
-        "21": "31",
-        "22": "33",
-        "23": "38",
-        "24": "47",
-        "25": "36",
-        "26": "28",
-        "27": "33",
-        "28": "30",
-        "29": "35",
-        "30": "27",
-        "31": "42",
-        "32": "28",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "28",
-        "37": "34",
-        "38": "39",
-        "39": "41",
-        "40": "32",
-        "41": "28",
-        "42": "26",
-        "43": "37",
-        "44": "27",
-        "45": "31",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "19",
-        "50": "31",
-        "51": "38"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "72"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "67",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "54",
-        "13": "54",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "33",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "46",
-        "13": "26",
-        "14": "46",
-        "15": "40"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "PS2": {
-        "numChapters": "1",
-        "1": "7"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "31",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "97",
-        "9": "56"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "60",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "PSS": {
-        "numChapters": "1",
-        "1": "7"
-      },
-      "LAO": {
-        "numChapters": "1",
-        "1": "20"
       }
     },
-    "omitted": {},
+    "omitted": {
+      "EZR": [
+        [
+          "1",
+          "10"
+        ],
+        [
+          "2",
+          "3"
+        ],
+        [
+          "2",
+          "4"
+        ],
+        [
+          "2",
+          "5"
+        ],
+        [
+          "2",
+          "6"
+        ],
+        [
+          "2",
+          "7"
+        ],
+        [
+          "2",
+          "8"
+        ],
+        [
+          "2",
+          "9"
+        ],
+        [
+          "2",
+          "10"
+        ],
+        [
+          "2",
+          "11"
+        ],
+        [
+          "2",
+          "12"
+        ],
+        [
+          "2",
+          "13"
+        ],
+        [
+          "2",
+          "14"
+        ],
+        [
+          "2",
+          "15"
+        ],
+        [
+          "2",
+          "16"
+        ],
+        [
+          "2",
+          "17"
+        ],
+        [
+          "2",
+          "18"
+        ],
+        [
+          "2",
+          "19"
+        ],
+        [
+          "2",
+          "20"
+        ],
+        [
+          "2",
+          "21"
+        ],
+        [
+          "2",
+          "22"
+        ],
+        [
+          "2",
+          "23"
+        ],
+        [
+          "2",
+          "24"
+        ],
+        [
+          "2",
+          "25"
+        ],
+        [
+          "2",
+          "26"
+        ],
+        [
+          "2",
+          "27"
+        ],
+        [
+          "2",
+          "28"
+        ],
+        [
+          "2",
+          "29"
+        ],
+        [
+          "2",
+          "30"
+        ],
+        [
+          "2",
+          "31"
+        ],
+        [
+          "2",
+          "32"
+        ],
+        [
+          "2",
+          "34"
+        ],
+        [
+          "2",
+          "35"
+        ],
+        [
+          "2",
+          "37"
+        ],
+        [
+          "2",
+          "38"
+        ],
+        [
+          "2",
+          "39"
+        ],
+        [
+          "2",
+          "41"
+        ],
+        [
+          "2",
+          "42"
+        ]
+      ],
+      "NEH": [
+        [
+          "7",
+          "8"
+        ],
+        [
+          "7",
+          "9"
+        ],
+        [
+          "7",
+          "10"
+        ],
+        [
+          "7",
+          "11"
+        ],
+        [
+          "7",
+          "12"
+        ],
+        [
+          "7",
+          "13"
+        ],
+        [
+          "7",
+          "14"
+        ],
+        [
+          "7",
+          "15"
+        ],
+        [
+          "7",
+          "16"
+        ],
+        [
+          "7",
+          "17"
+        ],
+        [
+          "7",
+          "18"
+        ],
+        [
+          "7",
+          "19"
+        ],
+        [
+          "7",
+          "20"
+        ],
+        [
+          "7",
+          "21"
+        ],
+        [
+          "7",
+          "22"
+        ],
+        [
+          "7",
+          "23"
+        ],
+        [
+          "7",
+          "24"
+        ],
+        [
+          "7",
+          "25"
+        ],
+        [
+          "7",
+          "26"
+        ],
+        [
+          "7",
+          "27"
+        ],
+        [
+          "7",
+          "28"
+        ],
+        [
+          "7",
+          "29"
+        ],
+        [
+          "7",
+          "30"
+        ],
+        [
+          "7",
+          "31"
+        ],
+        [
+          "7",
+          "32"
+        ],
+        [
+          "7",
+          "33"
+        ],
+        [
+          "7",
+          "34"
+        ],
+        [
+          "7",
+          "35"
+        ],
+        [
+          "7",
+          "36"
+        ],
+        [
+          "7",
+          "37"
+        ],
+        [
+          "7",
+          "38"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ]
+      ],
+      "MAT": [
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "11"
+        ],
+        [
+          "23",
+          "14"
+        ]
+      ],
+      "MRK": [
+        [
+          "7",
+          "16"
+        ],
+        [
+          "9",
+          "44"
+        ],
+        [
+          "9",
+          "46"
+        ],
+        [
+          "11",
+          "26"
+        ],
+        [
+          "15",
+          "28"
+        ]
+      ],
+      "LUK": [
+        [
+          "17",
+          "36"
+        ],
+        [
+          "23",
+          "17"
+        ]
+      ],
+      "JHN": [
+        [
+          "5",
+          "4"
+        ]
+      ],
+      "ACT": [
+        [
+          "8",
+          "37"
+        ],
+        [
+          "15",
+          "34"
+        ],
+        [
+          "24",
+          "7"
+        ],
+        [
+          "28",
+          "29"
+        ]
+      ],
+      "ROM": [
+        [
+          "16",
+          "24"
+        ]
+      ],
+      "REV": [
+        [
+          "7",
+          "5"
+        ],
+        [
+          "7",
+          "7"
+        ],
+        [
+          "7",
+          "8"
+        ]
+      ]
+    },
     "combined": {},
     "reordered": {}
   },
@@ -48905,7 +30520,1660 @@
     "combined": {},
     "reordered": {}
   },
-  "Vulgate": {
+  "NRSV": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "55",
+        "32": "32",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "25",
+        "8": "32",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "36",
+        "22": "31",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "29",
+        "38": "31",
+        "39": "43",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "19",
+        "6": "30",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "57",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "27",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "16",
+        "13": "33",
+        "14": "45",
+        "15": "41",
+        "16": "50",
+        "17": "13",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "18",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "40",
+        "30": "16",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "32",
+        "13": "18",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "30",
+        "23": "25",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "68",
+        "29": "29",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "35",
+        "9": "27",
+        "10": "43",
+        "11": "23",
+        "12": "24",
+        "13": "33",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "58",
+        "18": "30",
+        "19": "24",
+        "20": "42",
+        "21": "15",
+        "22": "23",
+        "23": "29",
+        "24": "22",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "33",
+        "19": "43",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "34",
+        "5": "18",
+        "6": "38",
+        "7": "51",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "43",
+        "21": "29",
+        "22": "53"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "21",
+        "12": "21",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "26",
+        "6": "81",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "40",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "17",
+        "2": "18",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
+        "13": "22",
+        "14": "15",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
+      },
+      "EZR": {
+        "numChapters": "10",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44"
+      },
+      "NEH": {
+        "numChapters": "13",
+        "1": "11",
+        "2": "20",
+        "3": "32",
+        "4": "23",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "38",
+        "10": "39",
+        "11": "36",
+        "12": "47",
+        "13": "31"
+      },
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "30",
+        "40": "24",
+        "41": "34",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "12",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
+        "10": "18",
+        "11": "7",
+        "12": "8",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "12",
+        "31": "24",
+        "32": "11",
+        "33": "22",
+        "34": "22",
+        "35": "28",
+        "36": "12",
+        "37": "40",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
+        "43": "5",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
+        "62": "12",
+        "63": "11",
+        "64": "10",
+        "65": "13",
+        "66": "20",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "10",
+        "76": "12",
+        "77": "20",
+        "78": "72",
+        "79": "13",
+        "80": "19",
+        "81": "16",
+        "82": "8",
+        "83": "18",
+        "84": "12",
+        "85": "13",
+        "86": "17",
+        "87": "7",
+        "88": "18",
+        "89": "52",
+        "90": "17",
+        "91": "16",
+        "92": "15",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
+        "98": "9",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "28",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "13",
+        "109": "31",
+        "110": "7",
+        "111": "10",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
+        "129": "8",
+        "130": "8",
+        "131": "3",
+        "132": "18",
+        "133": "3",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "13",
+        "141": "10",
+        "142": "7",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
+        "148": "14",
+        "149": "9",
+        "150": "6"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "24",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "16",
+        "5": "20",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "17",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "13",
+        "7": "13",
+        "8": "14"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "22",
+        "3": "26",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "22",
+        "9": "21",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "12",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "12",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "22",
+        "9": "26",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
+        "34": "22",
+        "35": "19",
+        "36": "32",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "49",
+        "21": "32",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "DAN": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "30",
+        "4": "37",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "23",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "16",
+        "14": "9"
+      },
+      "JOL": {
+        "numChapters": "3",
+        "1": "20",
+        "2": "32",
+        "3": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "17",
+        "2": "10",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
+        "5": "15",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "22",
+        "6": "18",
+        "7": "16",
+        "8": "21",
+        "9": "6",
+        "10": "13",
+        "11": "18",
+        "12": "22",
+        "13": "17",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
+      "ESG": {
+        "numChapters": "16",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "13",
+        "11": "12",
+        "12": "6",
+        "13": "18",
+        "14": "19",
+        "15": "16",
+        "16": "24"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "31",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "22",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9",
+        "6": "73"
+      },
+      "PAZ": {
+        "numChapters": "1",
+        "1": "68"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "PSS": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "29",
+        "2": "33",
+        "3": "30",
+        "4": "21",
+        "5": "51",
+        "6": "41",
+        "7": "23"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "MA4": {
+        "numChapters": "18",
+        "1": "35",
+        "2": "24",
+        "3": "21",
+        "4": "26",
+        "5": "38",
+        "6": "35",
+        "7": "23",
+        "8": "29",
+        "9": "32",
+        "10": "21",
+        "11": "27",
+        "12": "19",
+        "13": "27",
+        "14": "20",
+        "15": "32",
+        "16": "25",
+        "17": "24",
+        "18": "24"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "41",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "23",
+        "15": "33",
+        "16": "27"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "14"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "Original": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -48939,8 +32207,8 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "55",
-        "32": "32",
+        "31": "54",
+        "32": "33",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -48957,8 +32225,8 @@
         "46": "34",
         "47": "31",
         "48": "22",
-        "49": "32",
-        "50": "25"
+        "49": "33",
+        "50": "26"
       },
       "EXO": {
         "numChapters": "40",
@@ -48968,8 +32236,8 @@
         "4": "31",
         "5": "23",
         "6": "30",
-        "7": "25",
-        "8": "32",
+        "7": "29",
+        "8": "28",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -48982,8 +32250,8 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "36",
-        "22": "31",
+        "21": "37",
+        "22": "30",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -49001,7 +32269,7 @@
         "37": "29",
         "38": "31",
         "39": "43",
-        "40": "36"
+        "40": "38"
       },
       "LEV": {
         "numChapters": "27",
@@ -49009,8 +32277,8 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "19",
-        "6": "30",
+        "5": "26",
+        "6": "23",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -49030,7 +32298,7 @@
         "23": "44",
         "24": "23",
         "25": "55",
-        "26": "45",
+        "26": "46",
         "27": "34"
       },
       "NUM": {
@@ -49045,21 +32313,21 @@
         "8": "26",
         "9": "23",
         "10": "36",
-        "11": "34",
-        "12": "15",
-        "13": "34",
+        "11": "35",
+        "12": "16",
+        "13": "33",
         "14": "45",
         "15": "41",
-        "16": "50",
-        "17": "13",
+        "16": "35",
+        "17": "28",
         "18": "32",
         "19": "22",
-        "20": "30",
+        "20": "29",
         "21": "35",
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "18",
+        "25": "19",
         "26": "65",
         "27": "23",
         "28": "31",
@@ -49085,8 +32353,8 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "32",
-        "13": "18",
+        "12": "31",
+        "13": "19",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -49095,14 +32363,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "30",
-        "23": "25",
+        "22": "29",
+        "23": "26",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "68",
-        "29": "29",
+        "28": "69",
+        "29": "28",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -49114,8 +32382,8 @@
         "1": "18",
         "2": "24",
         "3": "17",
-        "4": "25",
-        "5": "16",
+        "4": "24",
+        "5": "15",
         "6": "27",
         "7": "26",
         "8": "35",
@@ -49131,7 +32399,7 @@
         "18": "28",
         "19": "51",
         "20": "9",
-        "21": "43",
+        "21": "45",
         "22": "34",
         "23": "16",
         "24": "33"
@@ -49142,7 +32410,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "32",
+        "5": "31",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -49158,7 +32426,7 @@
         "18": "31",
         "19": "30",
         "20": "48",
-        "21": "24"
+        "21": "25"
       },
       "RUT": {
         "numChapters": "4",
@@ -49188,8 +32456,8 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "43",
-        "21": "15",
+        "20": "42",
+        "21": "16",
         "22": "23",
         "23": "28",
         "24": "23",
@@ -49220,8 +32488,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "33",
-        "19": "43",
+        "18": "32",
+        "19": "44",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -49233,8 +32501,8 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "34",
-        "5": "18",
+        "4": "20",
+        "5": "32",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -49265,8 +32533,8 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "21",
-        "12": "21",
+        "11": "20",
+        "12": "22",
         "13": "25",
         "14": "29",
         "15": "38",
@@ -49287,14 +32555,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "26",
-        "6": "81",
+        "5": "41",
+        "6": "66",
         "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
-        "11": "46",
-        "12": "40",
+        "11": "47",
+        "12": "41",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -49302,7 +32570,7 @@
         "17": "27",
         "18": "17",
         "19": "19",
-        "20": "7",
+        "20": "8",
         "21": "30",
         "22": "19",
         "23": "32",
@@ -49315,8 +32583,8 @@
       },
       "CH2": {
         "numChapters": "36",
-        "1": "17",
-        "2": "18",
+        "1": "18",
+        "2": "17",
         "3": "17",
         "4": "22",
         "5": "14",
@@ -49327,8 +32595,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "22",
-        "14": "15",
+        "13": "23",
+        "14": "14",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -49369,30 +32637,30 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "31",
-        "4": "23",
+        "3": "38",
+        "4": "17",
         "5": "19",
         "6": "19",
-        "7": "73",
+        "7": "72",
         "8": "18",
-        "9": "38",
-        "10": "39",
+        "9": "37",
+        "10": "40",
         "11": "36",
-        "12": "46",
+        "12": "47",
         "13": "31"
       },
       "EST": {
         "numChapters": "10",
-        "1": "32",
+        "1": "22",
         "2": "23",
         "3": "15",
-        "4": "47",
-        "5": "28",
+        "4": "17",
+        "5": "14",
         "6": "14",
         "7": "10",
-        "8": "41",
+        "8": "17",
         "9": "32",
-        "10": "13"
+        "10": "3"
       },
       "JOB": {
         "numChapters": "42",
@@ -49411,7 +32679,7 @@
         "13": "28",
         "14": "22",
         "15": "35",
-        "16": "23",
+        "16": "22",
         "17": "16",
         "18": "21",
         "19": "29",
@@ -49434,159 +32702,159 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "35",
-        "40": "28",
-        "41": "25",
-        "42": "16"
+        "39": "30",
+        "40": "32",
+        "41": "26",
+        "42": "17"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
-        "2": "13",
+        "2": "12",
         "3": "9",
-        "4": "10",
+        "4": "9",
         "5": "13",
         "6": "11",
         "7": "18",
         "8": "10",
-        "9": "39",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "10",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "26",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "13",
-        "56": "12",
+        "9": "21",
+        "10": "18",
+        "11": "7",
+        "12": "9",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "51",
+        "19": "15",
+        "20": "10",
+        "21": "14",
+        "22": "32",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "13",
+        "31": "25",
+        "32": "11",
+        "33": "22",
+        "34": "23",
+        "35": "28",
+        "36": "13",
+        "37": "40",
+        "38": "23",
+        "39": "14",
+        "40": "18",
+        "41": "14",
+        "42": "12",
+        "43": "5",
+        "44": "27",
+        "45": "18",
+        "46": "12",
+        "47": "10",
+        "48": "15",
+        "49": "21",
+        "50": "23",
+        "51": "21",
+        "52": "11",
+        "53": "7",
+        "54": "9",
+        "55": "24",
+        "56": "14",
         "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
+        "58": "12",
+        "59": "18",
+        "60": "14",
+        "61": "9",
+        "62": "13",
+        "63": "12",
+        "64": "11",
+        "65": "14",
+        "66": "20",
+        "67": "8",
+        "68": "36",
+        "69": "37",
+        "70": "6",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "11",
+        "76": "13",
+        "77": "21",
+        "78": "72",
+        "79": "13",
+        "80": "20",
+        "81": "17",
+        "82": "8",
+        "83": "19",
+        "84": "13",
+        "85": "14",
+        "86": "17",
+        "87": "7",
+        "88": "19",
+        "89": "53",
+        "90": "17",
         "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
+        "92": "16",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
         "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "29",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "14",
+        "109": "31",
+        "110": "7",
         "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "19",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
         "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
+        "130": "8",
+        "131": "3",
+        "132": "18",
         "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "14",
+        "141": "10",
+        "142": "8",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
         "147": "20",
         "148": "14",
         "149": "9",
@@ -49633,8 +32901,8 @@
         "3": "22",
         "4": "17",
         "5": "19",
-        "6": "11",
-        "7": "30",
+        "6": "12",
+        "7": "29",
         "8": "17",
         "9": "18",
         "10": "20",
@@ -49643,13 +32911,13 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "16",
+        "1": "17",
         "2": "17",
         "3": "11",
         "4": "16",
-        "5": "17",
+        "5": "16",
         "6": "12",
-        "7": "13",
+        "7": "14",
         "8": "14"
       },
       "ISA": {
@@ -49661,8 +32929,8 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "22",
-        "9": "21",
+        "8": "23",
+        "9": "20",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -49717,7 +32985,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "12",
+        "64": "11",
         "65": "25",
         "66": "24"
       },
@@ -49730,8 +32998,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "22",
-        "9": "26",
+        "8": "23",
+        "9": "25",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -49759,7 +33027,7 @@
         "34": "22",
         "35": "19",
         "36": "32",
-        "37": "20",
+        "37": "21",
         "38": "28",
         "39": "18",
         "40": "16",
@@ -49787,7 +33055,7 @@
       "EZE": {
         "numChapters": "48",
         "1": "28",
-        "2": "9",
+        "2": "10",
         "3": "27",
         "4": "17",
         "5": "17",
@@ -49805,8 +33073,8 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "49",
-        "21": "32",
+        "20": "44",
+        "21": "37",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -49836,26 +33104,24 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "14",
+        "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "100",
+        "3": "33",
         "4": "34",
-        "5": "31",
-        "6": "28",
+        "5": "30",
+        "6": "29",
         "7": "28",
         "8": "27",
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13",
-        "13": "65",
-        "14": "41"
+        "12": "13"
       },
       "HOS": {
         "numChapters": "14",
-        "1": "11",
-        "2": "24",
+        "1": "9",
+        "2": "25",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -49864,16 +33130,17 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "12",
-        "12": "14",
+        "11": "11",
+        "12": "15",
         "13": "15",
         "14": "10"
       },
       "JOL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "20",
-        "2": "32",
-        "3": "21"
+        "2": "27",
+        "3": "5",
+        "4": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -49882,7 +33149,7 @@
         "3": "15",
         "4": "13",
         "5": "27",
-        "6": "15",
+        "6": "14",
         "7": "17",
         "8": "14",
         "9": "15"
@@ -49903,15 +33170,15 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "13",
+        "4": "14",
         "5": "14",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "15",
-        "2": "13",
+        "1": "14",
+        "2": "14",
         "3": "19"
       },
       "HAB": {
@@ -49928,13 +33195,13 @@
       },
       "HAG": {
         "numChapters": "2",
-        "1": "14",
-        "2": "24"
+        "1": "15",
+        "2": "23"
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "21",
-        "2": "13",
+        "1": "17",
+        "2": "17",
         "3": "10",
         "4": "14",
         "5": "11",
@@ -49949,11 +33216,10 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "14",
         "2": "17",
-        "3": "18",
-        "4": "6"
+        "3": "24"
       },
       "MAT": {
         "numChapters": "28",
@@ -49973,7 +33239,7 @@
         "14": "36",
         "15": "39",
         "16": "28",
-        "17": "26",
+        "17": "27",
         "18": "35",
         "19": "30",
         "20": "34",
@@ -49991,12 +33257,12 @@
         "1": "45",
         "2": "28",
         "3": "35",
-        "4": "40",
+        "4": "41",
         "5": "43",
         "6": "56",
         "7": "37",
-        "8": "39",
-        "9": "49",
+        "8": "38",
+        "9": "50",
         "10": "52",
         "11": "33",
         "12": "44",
@@ -50039,7 +33305,7 @@
         "3": "36",
         "4": "54",
         "5": "47",
-        "6": "72",
+        "6": "71",
         "7": "53",
         "8": "59",
         "9": "41",
@@ -50064,14 +33330,14 @@
         "4": "37",
         "5": "42",
         "6": "15",
-        "7": "59",
+        "7": "60",
         "8": "40",
         "9": "43",
         "10": "48",
         "11": "30",
         "12": "25",
         "13": "52",
-        "14": "27",
+        "14": "28",
         "15": "41",
         "16": "40",
         "17": "34",
@@ -50298,66 +33564,63 @@
       },
       "TOB": {
         "numChapters": "14",
-        "1": "25",
-        "2": "23",
-        "3": "25",
-        "4": "23",
-        "5": "28",
-        "6": "22",
-        "7": "20",
-        "8": "24",
-        "9": "12",
-        "10": "13",
-        "11": "21",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
         "12": "22",
-        "13": "23",
-        "14": "17"
+        "13": "18",
+        "14": "15"
       },
       "JDT": {
         "numChapters": "16",
-        "1": "12",
-        "2": "18",
-        "3": "15",
-        "4": "17",
-        "5": "29",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
         "6": "21",
-        "7": "25",
-        "8": "34",
-        "9": "19",
-        "10": "20",
-        "11": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
         "12": "20",
-        "13": "31",
-        "14": "18",
-        "15": "15",
-        "16": "31"
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
       },
       "ESG": {
-        "numChapters": "10",
-        "1": "39",
-        "2": "23",
-        "3": "22",
-        "4": "47",
-        "5": "28",
-        "6": "14",
-        "7": "10",
-        "8": "39",
-        "9": "32",
-        "10": "13"
+        "numChapters": "7",
+        "1": "13",
+        "2": "12",
+        "3": "6",
+        "4": "18",
+        "5": "19",
+        "6": "16",
+        "7": "24"
       },
       "WIS": {
         "numChapters": "19",
         "1": "16",
-        "2": "25",
+        "2": "24",
         "3": "19",
         "4": "20",
-        "5": "24",
-        "6": "27",
+        "5": "23",
+        "6": "25",
         "7": "30",
         "8": "21",
-        "9": "19",
+        "9": "18",
         "10": "21",
-        "11": "27",
+        "11": "26",
         "12": "27",
         "13": "19",
         "14": "31",
@@ -50365,71 +33628,69 @@
         "16": "29",
         "17": "20",
         "18": "25",
-        "19": "20"
+        "19": "22"
       },
       "SIR": {
-        "numChapters": "52",
-        "1": "40",
-        "2": "23",
-        "3": "34",
-        "4": "36",
-        "5": "18",
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
         "6": "37",
-        "7": "40",
-        "8": "22",
-        "9": "25",
-        "10": "34",
-        "11": "36",
-        "12": "19",
-        "13": "32",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
         "14": "27",
-        "15": "22",
-        "16": "31",
-        "17": "31",
+        "15": "20",
+        "16": "30",
+        "17": "32",
         "18": "33",
-        "19": "28",
-        "20": "33",
-        "21": "31",
-        "22": "33",
-        "23": "38",
-        "24": "47",
-        "25": "36",
-        "26": "28",
-        "27": "33",
-        "28": "30",
-        "29": "35",
-        "30": "27",
-        "31": "42",
-        "32": "28",
+        "19": "30",
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
         "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "28",
-        "37": "34",
-        "38": "39",
-        "39": "41",
-        "40": "32",
-        "41": "28",
-        "42": "26",
-        "43": "37",
-        "44": "27",
-        "45": "31",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "19",
-        "50": "31",
-        "51": "38",
-        "52": "13"
+        "34": "26",
+        "35": "24",
+        "36": "27",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "27",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
       },
       "BAR": {
-        "numChapters": "6",
+        "numChapters": "5",
         "1": "22",
         "2": "35",
         "3": "38",
         "4": "37",
-        "5": "9",
-        "6": "72"
+        "5": "9"
       },
       "LJE": {
         "numChapters": "1",
@@ -50449,7 +33710,7 @@
       },
       "MA1": {
         "numChapters": "16",
-        "1": "67",
+        "1": "64",
         "2": "70",
         "3": "60",
         "4": "61",
@@ -50460,8 +33721,8 @@
         "9": "73",
         "10": "89",
         "11": "74",
-        "12": "54",
-        "13": "54",
+        "12": "53",
+        "13": "53",
         "14": "49",
         "15": "41",
         "16": "24"
@@ -50469,7 +33730,7 @@
       "MA2": {
         "numChapters": "15",
         "1": "36",
-        "2": "33",
+        "2": "32",
         "3": "40",
         "4": "50",
         "5": "27",
@@ -50479,10 +33740,10 @@
         "9": "29",
         "10": "38",
         "11": "38",
-        "12": "46",
+        "12": "45",
         "13": "26",
         "14": "46",
-        "15": "40"
+        "15": "39"
       },
       "MA3": {
         "numChapters": "7",
@@ -50517,15 +33778,15 @@
       },
       "GES": {
         "numChapters": "9",
-        "1": "58",
-        "2": "31",
+        "1": "55",
+        "2": "26",
         "3": "24",
         "4": "63",
-        "5": "73",
-        "6": "34",
+        "5": "71",
+        "6": "33",
         "7": "15",
-        "8": "97",
-        "9": "56"
+        "8": "92",
+        "9": "55"
       },
       "LES": {
         "numChapters": "16",
@@ -50533,16 +33794,16 @@
         "2": "48",
         "3": "36",
         "4": "52",
-        "5": "55",
+        "5": "56",
         "6": "59",
-        "7": "139",
+        "7": "140",
         "8": "63",
         "9": "47",
-        "10": "60",
+        "10": "59",
         "11": "46",
         "12": "51",
         "13": "58",
-        "14": "47",
+        "14": "48",
         "15": "63",
         "16": "78"
       },
@@ -50554,16 +33815,49 @@
         "numChapters": "1",
         "1": "7"
       },
-      "EZ5": {
-        "numChapters": "2",
-        "1": "40",
-        "2": "48"
+      "ODE": {
+        "numChapters": "14",
+        "1": "19",
+        "2": "43",
+        "3": "10",
+        "4": "19",
+        "5": "12",
+        "6": "8",
+        "7": "20",
+        "8": "37",
+        "9": "22",
+        "10": "9",
+        "11": "11",
+        "12": "15",
+        "13": "4",
+        "14": "46"
+      },
+      "PSS": {
+        "numChapters": "18",
+        "1": "8",
+        "2": "37",
+        "3": "12",
+        "4": "25",
+        "5": "19",
+        "6": "6",
+        "7": "10",
+        "8": "34",
+        "9": "11",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "12",
+        "14": "10",
+        "15": "13",
+        "16": "15",
+        "17": "46",
+        "18": "12"
       },
       "EZA": {
         "numChapters": "12",
         "1": "36",
         "2": "52",
-        "3": "55",
+        "3": "56",
         "4": "59",
         "5": "139",
         "6": "63",
@@ -50572,40 +33866,96 @@
         "9": "46",
         "10": "51",
         "11": "58",
-        "12": "47"
-      },
-      "EZ6": {
-        "numChapters": "2",
-        "1": "63",
-        "12": "78"
+        "12": "48"
       },
-      "DNG": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
+      "JUB": {
+        "numChapters": "34",
+        "1": "26",
+        "2": "17",
+        "3": "19",
+        "4": "24",
+        "5": "36",
+        "6": "34",
+        "7": "37",
+        "8": "40",
         "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
+        "10": "48",
+        "11": "39",
+        "12": "56",
+        "13": "34",
+        "14": "55",
+        "15": "20",
+        "16": "28",
+        "17": "30",
+        "18": "31",
+        "19": "59",
+        "20": "66",
+        "21": "30",
+        "22": "38",
+        "23": "59",
+        "24": "30",
+        "25": "50",
+        "26": "48",
+        "27": "37",
+        "28": "38",
+        "29": "27",
+        "30": "29",
+        "31": "31",
+        "32": "24",
+        "33": "30",
+        "34": "20"
       },
-      "LAO": {
-        "numChapters": "1",
-        "1": "20"
+      "ENO": {
+        "numChapters": "42",
+        "1": "28",
+        "2": "42",
+        "3": "30",
+        "4": "88",
+        "5": "40",
+        "6": "42",
+        "7": "39",
+        "8": "46",
+        "9": "42",
+        "10": "16",
+        "11": "19",
+        "12": "40",
+        "13": "34",
+        "14": "35",
+        "15": "45",
+        "16": "41",
+        "17": "69",
+        "18": "42",
+        "19": "29",
+        "20": "53",
+        "21": "57",
+        "22": "14",
+        "23": "26",
+        "24": "16",
+        "25": "30",
+        "26": "37",
+        "27": "21",
+        "28": "34",
+        "29": "28",
+        "30": "23",
+        "31": "29",
+        "32": "82",
+        "33": "59",
+        "34": "49",
+        "35": "36",
+        "36": "30",
+        "37": "34",
+        "38": "36",
+        "39": "24",
+        "40": "40",
+        "41": "22",
+        "42": "16"
       }
     },
     "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "RussianOrthodox": {
+  "REB89": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -50718,7 +34068,7 @@
         "11": "47",
         "12": "8",
         "13": "59",
-        "14": "56",
+        "14": "57",
         "15": "33",
         "16": "34",
         "17": "16",
@@ -50746,8 +34096,8 @@
         "9": "23",
         "10": "36",
         "11": "35",
-        "12": "15",
-        "13": "34",
+        "12": "16",
+        "13": "33",
         "14": "45",
         "15": "41",
         "16": "50",
@@ -50763,8 +34113,8 @@
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "39",
-        "30": "17",
+        "29": "40",
+        "30": "16",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -50815,8 +34165,8 @@
         "2": "24",
         "3": "17",
         "4": "24",
-        "5": "16",
-        "6": "26",
+        "5": "15",
+        "6": "27",
         "7": "26",
         "8": "35",
         "9": "27",
@@ -50834,7 +34184,7 @@
         "21": "45",
         "22": "34",
         "23": "16",
-        "24": "36"
+        "24": "33"
       },
       "JDG": {
         "numChapters": "21",
@@ -50888,11 +34238,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "43",
+        "20": "42",
         "21": "15",
         "22": "23",
-        "23": "28",
-        "24": "23",
+        "23": "29",
+        "24": "22",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -51014,7 +34364,7 @@
         "29": "30"
       },
       "CH2": {
-        "numChapters": "37",
+        "numChapters": "36",
         "1": "17",
         "2": "18",
         "3": "17",
@@ -51050,8 +34400,7 @@
         "33": "25",
         "34": "33",
         "35": "27",
-        "36": "23",
-        "37": "12"
+        "36": "23"
       },
       "EZR": {
         "numChapters": "10",
@@ -51109,7 +34458,7 @@
         "10": "22",
         "11": "20",
         "12": "25",
-        "13": "28",
+        "13": "27",
         "14": "22",
         "15": "35",
         "16": "22",
@@ -51125,7 +34474,7 @@
         "26": "14",
         "27": "23",
         "28": "28",
-        "29": "25",
+        "29": "20",
         "30": "31",
         "31": "40",
         "32": "22",
@@ -51135,171 +34484,170 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "35",
-        "40": "27",
-        "41": "26",
+        "39": "30",
+        "40": "24",
+        "41": "34",
         "42": "17"
       },
       "PSA": {
-        "numChapters": "151",
+        "numChapters": "150",
         "1": "6",
         "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
+        "10": "18",
+        "11": "7",
+        "12": "8",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "12",
+        "31": "24",
+        "32": "11",
+        "33": "22",
+        "34": "22",
+        "35": "28",
+        "36": "12",
+        "37": "40",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
+        "43": "5",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "9",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
         "62": "12",
         "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
+        "64": "10",
+        "65": "13",
+        "66": "20",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "10",
+        "76": "12",
+        "77": "20",
+        "78": "72",
+        "79": "13",
+        "80": "19",
+        "81": "16",
+        "82": "8",
+        "83": "18",
+        "84": "12",
+        "85": "13",
+        "86": "17",
+        "87": "7",
+        "88": "18",
+        "89": "52",
+        "90": "17",
         "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
+        "92": "15",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
         "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "28",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "13",
+        "109": "31",
+        "110": "7",
         "111": "10",
-        "112": "9",
-        "113": "26",
+        "112": "10",
+        "113": "9",
         "114": "8",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
         "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
+        "130": "8",
+        "131": "3",
+        "132": "18",
         "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "7",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "13",
+        "141": "10",
+        "142": "7",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
         "148": "14",
         "149": "9",
-        "150": "6",
-        "151": "7"
+        "150": "6"
       },
       "PRO": {
         "numChapters": "31",
         "1": "33",
         "2": "22",
         "3": "35",
-        "4": "29",
+        "4": "27",
         "5": "23",
         "6": "35",
         "7": "27",
@@ -51308,12 +34656,12 @@
         "10": "32",
         "11": "31",
         "12": "28",
-        "13": "26",
+        "13": "25",
         "14": "35",
         "15": "33",
         "16": "33",
         "17": "28",
-        "18": "25",
+        "18": "24",
         "19": "29",
         "20": "30",
         "21": "31",
@@ -51333,8 +34681,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "17",
-        "5": "19",
+        "4": "16",
+        "5": "20",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -51345,20 +34693,20 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "16",
+        "1": "17",
         "2": "17",
         "3": "11",
         "4": "16",
         "5": "16",
-        "6": "12",
-        "7": "14",
+        "6": "13",
+        "7": "13",
         "8": "14"
       },
       "ISA": {
         "numChapters": "66",
         "1": "31",
         "2": "22",
-        "3": "25",
+        "3": "26",
         "4": "6",
         "5": "30",
         "6": "13",
@@ -51393,7 +34741,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "22",
+        "38": "20",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -51538,11 +34886,11 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "14",
+        "numChapters": "12",
         "1": "21",
         "2": "49",
-        "3": "100",
-        "4": "34",
+        "3": "30",
+        "4": "37",
         "5": "31",
         "6": "28",
         "7": "28",
@@ -51550,9 +34898,7 @@
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
+        "12": "13"
       },
       "HOS": {
         "numChapters": "14",
@@ -51568,8 +34914,8 @@
         "10": "15",
         "11": "12",
         "12": "14",
-        "13": "15",
-        "14": "10"
+        "13": "16",
+        "14": "9"
       },
       "JOL": {
         "numChapters": "3",
@@ -51595,8 +34941,8 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "16",
-        "2": "11",
+        "1": "17",
+        "2": "10",
         "3": "10",
         "4": "11"
       },
@@ -51778,7 +35124,7 @@
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "40",
+        "19": "41",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -51804,9 +35150,9 @@
         "11": "36",
         "12": "21",
         "13": "14",
-        "14": "26",
+        "14": "23",
         "15": "33",
-        "16": "24"
+        "16": "27"
       },
       "CO1": {
         "numChapters": "16",
@@ -51839,9 +35185,9 @@
         "8": "24",
         "9": "15",
         "10": "18",
-        "11": "32",
+        "11": "33",
         "12": "21",
-        "13": "13"
+        "13": "14"
       },
       "GAL": {
         "numChapters": "6",
@@ -51967,7 +35313,7 @@
       },
       "JN3": {
         "numChapters": "1",
-        "1": "15"
+        "1": "14"
       },
       "JDE": {
         "numChapters": "1",
@@ -51998,22 +35344,80 @@
         "21": "27",
         "22": "21"
       },
-      "TOB": {
-        "numChapters": "14",
+      "BAR": {
+        "numChapters": "5",
         "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "22",
-        "6": "18",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "13",
-        "11": "18",
-        "12": "22",
-        "13": "18",
-        "14": "15"
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "ESG": {
+        "numChapters": "21",
+        "1": "12",
+        "2": "6",
+        "3": "22",
+        "4": "23",
+        "5": "13",
+        "6": "7",
+        "7": "15",
+        "8": "17",
+        "9": "18",
+        "10": "19",
+        "11": "16",
+        "12": "14",
+        "13": "14",
+        "14": "10",
+        "15": "12",
+        "16": "24",
+        "17": "17",
+        "18": "32",
+        "19": "3",
+        "20": "13",
+        "21": "1"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "73"
       },
       "JDT": {
         "numChapters": "16",
@@ -52031,109 +35435,105 @@
         "12": "20",
         "13": "20",
         "14": "19",
-        "15": "14",
+        "15": "13",
         "16": "25"
       },
-      "ESG": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "24",
-        "6": "27",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "27",
-        "12": "28",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "20",
-        "18": "25",
-        "19": "21"
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
       },
       "SIR": {
         "numChapters": "51",
         "1": "30",
         "2": "18",
         "3": "31",
-        "4": "35",
-        "5": "18",
+        "4": "31",
+        "5": "15",
         "6": "37",
-        "7": "39",
-        "8": "22",
-        "9": "23",
-        "10": "34",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
         "11": "34",
         "12": "18",
-        "13": "32",
+        "13": "26",
         "14": "27",
         "15": "20",
-        "16": "31",
-        "17": "31",
+        "16": "30",
+        "17": "32",
         "18": "33",
-        "19": "28",
+        "19": "30",
         "20": "31",
-        "21": "31",
-        "22": "31",
-        "23": "37",
-        "24": "37",
-        "25": "29",
-        "26": "27",
-        "27": "33",
-        "28": "30",
-        "29": "31",
-        "30": "27",
-        "31": "37",
-        "32": "25",
-        "33": "33",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "31",
         "34": "26",
-        "35": "23",
-        "36": "29",
-        "37": "34",
-        "38": "39",
-        "39": "42",
-        "40": "32",
-        "41": "29",
-        "42": "26",
-        "43": "36",
-        "44": "27",
-        "45": "31",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "18",
-        "50": "31",
-        "51": "38"
+        "35": "20",
+        "36": "26",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "24",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
       },
-      "BAR": {
-        "numChapters": "5",
+      "TOB": {
+        "numChapters": "14",
         "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9"
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "22",
+        "6": "17",
+        "7": "18",
+        "8": "21",
+        "9": "6",
+        "10": "12",
+        "11": "18",
+        "12": "22",
+        "13": "18",
+        "14": "15"
       },
-      "LJE": {
-        "numChapters": "1",
-        "1": "72"
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
       },
       "MA1": {
         "numChapters": "16",
@@ -52157,7 +35557,7 @@
       "MA2": {
         "numChapters": "15",
         "1": "36",
-        "2": "33",
+        "2": "32",
         "3": "40",
         "4": "50",
         "5": "27",
@@ -52172,74 +35572,10577 @@
         "14": "46",
         "15": "39"
       },
-      "MA3": {
-        "numChapters": "7",
-        "1": "25",
-        "2": "24",
-        "3": "22",
-        "4": "16",
-        "5": "36",
-        "6": "37",
-        "7": "20"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "31",
-        "3": "24",
-        "4": "63",
-        "5": "70",
-        "6": "34",
-        "7": "15",
-        "8": "92",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "70",
-        "8": "63",
-        "9": "47",
-        "10": "60",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "MAN": {
+      "PAZ": {
         "numChapters": "1",
-        "1": "15"
-      },
-      "DNG": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "49",
-        "3": "100",
-        "4": "34",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13",
-        "13": "64",
-        "14": "42"
+        "1": "68"
       }
     },
-    "omitted": {},
+    "omitted": {
+      "GEN": [
+        [
+          "26",
+          "16"
+        ],
+        [
+          "26",
+          "17"
+        ],
+        [
+          "26",
+          "18"
+        ]
+      ],
+      "DEU": [
+        [
+          "15",
+          "15"
+        ],
+        [
+          "15",
+          "16"
+        ],
+        [
+          "15",
+          "17"
+        ],
+        [
+          "15",
+          "18"
+        ]
+      ],
+      "JOS": [
+        [
+          "8",
+          "13"
+        ]
+      ],
+      "JDG": [
+        [
+          "20",
+          "22"
+        ],
+        [
+          "20",
+          "23"
+        ]
+      ],
+      "SA1": [
+        [
+          "9",
+          "9"
+        ],
+        [
+          "9",
+          "10"
+        ]
+      ],
+      "KI1": [
+        [
+          "11",
+          "23"
+        ],
+        [
+          "11",
+          "24"
+        ],
+        [
+          "11",
+          "25"
+        ],
+        [
+          "15",
+          "6"
+        ]
+      ],
+      "NEH": [
+        [
+          "11",
+          "5"
+        ],
+        [
+          "11",
+          "6"
+        ]
+      ],
+      "JOB": [
+        [
+          "3",
+          "13"
+        ],
+        [
+          "3",
+          "14"
+        ],
+        [
+          "3",
+          "15"
+        ],
+        [
+          "3",
+          "16"
+        ],
+        [
+          "14",
+          "4"
+        ],
+        [
+          "20",
+          "10"
+        ],
+        [
+          "20",
+          "11"
+        ],
+        [
+          "24",
+          "3"
+        ],
+        [
+          "24",
+          "4"
+        ],
+        [
+          "24",
+          "5"
+        ],
+        [
+          "24",
+          "4"
+        ],
+        [
+          "24",
+          "5"
+        ],
+        [
+          "24",
+          "6"
+        ],
+        [
+          "24",
+          "7"
+        ],
+        [
+          "24",
+          "8"
+        ],
+        [
+          "24",
+          "6"
+        ],
+        [
+          "24",
+          "9"
+        ],
+        [
+          "29",
+          "11"
+        ],
+        [
+          "29",
+          "12"
+        ],
+        [
+          "29",
+          "13"
+        ],
+        [
+          "29",
+          "14"
+        ],
+        [
+          "29",
+          "15"
+        ],
+        [
+          "29",
+          "16"
+        ],
+        [
+          "29",
+          "17"
+        ],
+        [
+          "29",
+          "18"
+        ],
+        [
+          "29",
+          "19"
+        ],
+        [
+          "29",
+          "20"
+        ],
+        [
+          "31",
+          "1"
+        ],
+        [
+          "31",
+          "2"
+        ],
+        [
+          "31",
+          "3"
+        ],
+        [
+          "31",
+          "4"
+        ],
+        [
+          "31",
+          "5"
+        ],
+        [
+          "31",
+          "29"
+        ],
+        [
+          "31",
+          "30"
+        ],
+        [
+          "31",
+          "31"
+        ],
+        [
+          "31",
+          "32"
+        ],
+        [
+          "31",
+          "33"
+        ],
+        [
+          "31",
+          "34"
+        ],
+        [
+          "31",
+          "35"
+        ],
+        [
+          "31",
+          "36"
+        ],
+        [
+          "31",
+          "37"
+        ],
+        [
+          "31",
+          "38"
+        ],
+        [
+          "31",
+          "39"
+        ],
+        [
+          "34",
+          "23"
+        ],
+        [
+          "34",
+          "24"
+        ],
+        [
+          "34",
+          "25"
+        ],
+        [
+          "36",
+          "20"
+        ],
+        [
+          "36",
+          "21"
+        ],
+        [
+          "36",
+          "29"
+        ],
+        [
+          "36",
+          "30"
+        ],
+        [
+          "36",
+          "31"
+        ]
+      ],
+      "PRO": [
+        [
+          "4",
+          "7"
+        ]
+      ],
+      "SNG": [
+        [
+          "4",
+          "12"
+        ],
+        [
+          "4",
+          "13"
+        ],
+        [
+          "4",
+          "14"
+        ]
+      ],
+      "ISA": [
+        [
+          "38",
+          "7"
+        ],
+        [
+          "38",
+          "8"
+        ],
+        [
+          "38",
+          "9"
+        ],
+        [
+          "38",
+          "10"
+        ],
+        [
+          "38",
+          "11"
+        ],
+        [
+          "38",
+          "12"
+        ],
+        [
+          "38",
+          "13"
+        ],
+        [
+          "38",
+          "14"
+        ],
+        [
+          "38",
+          "15"
+        ],
+        [
+          "38",
+          "16"
+        ],
+        [
+          "38",
+          "17"
+        ],
+        [
+          "38",
+          "18"
+        ],
+        [
+          "38",
+          "19"
+        ],
+        [
+          "38",
+          "20"
+        ],
+        [
+          "40",
+          "8"
+        ],
+        [
+          "40",
+          "9"
+        ],
+        [
+          "40",
+          "10"
+        ],
+        [
+          "40",
+          "11"
+        ],
+        [
+          "40",
+          "12"
+        ],
+        [
+          "40",
+          "13"
+        ],
+        [
+          "40",
+          "14"
+        ],
+        [
+          "40",
+          "15"
+        ],
+        [
+          "40",
+          "16"
+        ],
+        [
+          "40",
+          "17"
+        ],
+        [
+          "40",
+          "18"
+        ],
+        [
+          "40",
+          "19"
+        ],
+        [
+          "40",
+          "20"
+        ],
+        [
+          "41",
+          "6"
+        ],
+        [
+          "41",
+          "7"
+        ]
+      ],
+      "EZE": [
+        [
+          "1",
+          "14"
+        ],
+        [
+          "40",
+          "30"
+        ],
+        [
+          "41",
+          "10"
+        ],
+        [
+          "41",
+          "11"
+        ]
+      ],
+      "AMO": [
+        [
+          "5",
+          "7"
+        ],
+        [
+          "5",
+          "8"
+        ],
+        [
+          "5",
+          "9"
+        ]
+      ],
+      "NAH": [
+        [
+          "2",
+          "1"
+        ],
+        [
+          "2",
+          "2"
+        ]
+      ],
+      "ZEC": [
+        [
+          "4",
+          "1"
+        ],
+        [
+          "4",
+          "2"
+        ],
+        [
+          "4",
+          "3"
+        ],
+        [
+          "4",
+          "4"
+        ],
+        [
+          "4",
+          "5"
+        ],
+        [
+          "4",
+          "6"
+        ],
+        [
+          "4",
+          "7"
+        ],
+        [
+          "4",
+          "8"
+        ],
+        [
+          "4",
+          "9"
+        ],
+        [
+          "4",
+          "10"
+        ]
+      ],
+      "MAT": [
+        [
+          "9",
+          "34"
+        ],
+        [
+          "16",
+          "3"
+        ],
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "11"
+        ],
+        [
+          "21",
+          "44"
+        ],
+        [
+          "23",
+          "14"
+        ]
+      ],
+      "MRK": [
+        [
+          "7",
+          "16"
+        ],
+        [
+          "9",
+          "44"
+        ],
+        [
+          "9",
+          "46"
+        ],
+        [
+          "11",
+          "26"
+        ],
+        [
+          "15",
+          "28"
+        ]
+      ],
+      "LUK": [
+        [
+          "17",
+          "36"
+        ],
+        [
+          "22",
+          "20"
+        ],
+        [
+          "23",
+          "17"
+        ],
+        [
+          "24",
+          "12"
+        ],
+        [
+          "24",
+          "40"
+        ]
+      ],
+      "JHN": [
+        [
+          "4",
+          "7"
+        ],
+        [
+          "4",
+          "8"
+        ],
+        [
+          "5",
+          "4"
+        ]
+      ],
+      "ACT": [
+        [
+          "8",
+          "37"
+        ],
+        [
+          "15",
+          "34"
+        ],
+        [
+          "24",
+          "7"
+        ],
+        [
+          "28",
+          "29"
+        ]
+      ],
+      "ROM": [
+        [
+          "16",
+          "24"
+        ]
+      ],
+      "LES": [
+        [
+          "7",
+          "37"
+        ],
+        [
+          "7",
+          "38"
+        ],
+        [
+          "7",
+          "39"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "38"
+        ],
+        [
+          "7",
+          "39"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "39"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "40"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "41"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "42"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "43"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "44"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "45"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "46"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "47"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "48"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "49"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "50"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "51"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "52"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "53"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "54"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "55"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "56"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "57"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "58"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "59"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "60"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "61"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "62"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "63"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "64"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "65"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "66"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "67"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "135"
+        ],
+        [
+          "7",
+          "68"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "135"
+        ],
+        [
+          "7",
+          "136"
+        ],
+        [
+          "7",
+          "69"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "135"
+        ],
+        [
+          "7",
+          "136"
+        ],
+        [
+          "7",
+          "137"
+        ],
+        [
+          "7",
+          "70"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "135"
+        ],
+        [
+          "7",
+          "136"
+        ],
+        [
+          "7",
+          "137"
+        ],
+        [
+          "7",
+          "138"
+        ],
+        [
+          "7",
+          "71"
+        ],
+        [
+          "7",
+          "72"
+        ],
+        [
+          "7",
+          "73"
+        ],
+        [
+          "7",
+          "74"
+        ],
+        [
+          "7",
+          "75"
+        ],
+        [
+          "7",
+          "76"
+        ],
+        [
+          "7",
+          "77"
+        ],
+        [
+          "7",
+          "78"
+        ],
+        [
+          "7",
+          "79"
+        ],
+        [
+          "7",
+          "80"
+        ],
+        [
+          "7",
+          "81"
+        ],
+        [
+          "7",
+          "82"
+        ],
+        [
+          "7",
+          "83"
+        ],
+        [
+          "7",
+          "84"
+        ],
+        [
+          "7",
+          "85"
+        ],
+        [
+          "7",
+          "86"
+        ],
+        [
+          "7",
+          "87"
+        ],
+        [
+          "7",
+          "88"
+        ],
+        [
+          "7",
+          "89"
+        ],
+        [
+          "7",
+          "90"
+        ],
+        [
+          "7",
+          "91"
+        ],
+        [
+          "7",
+          "92"
+        ],
+        [
+          "7",
+          "93"
+        ],
+        [
+          "7",
+          "94"
+        ],
+        [
+          "7",
+          "95"
+        ],
+        [
+          "7",
+          "96"
+        ],
+        [
+          "7",
+          "97"
+        ],
+        [
+          "7",
+          "98"
+        ],
+        [
+          "7",
+          "99"
+        ],
+        [
+          "7",
+          "100"
+        ],
+        [
+          "7",
+          "101"
+        ],
+        [
+          "7",
+          "102"
+        ],
+        [
+          "7",
+          "103"
+        ],
+        [
+          "7",
+          "104"
+        ],
+        [
+          "7",
+          "105"
+        ],
+        [
+          "7",
+          "106"
+        ],
+        [
+          "7",
+          "107"
+        ],
+        [
+          "7",
+          "108"
+        ],
+        [
+          "7",
+          "109"
+        ],
+        [
+          "7",
+          "110"
+        ],
+        [
+          "7",
+          "111"
+        ],
+        [
+          "7",
+          "112"
+        ],
+        [
+          "7",
+          "113"
+        ],
+        [
+          "7",
+          "114"
+        ],
+        [
+          "7",
+          "115"
+        ],
+        [
+          "7",
+          "116"
+        ],
+        [
+          "7",
+          "117"
+        ],
+        [
+          "7",
+          "118"
+        ],
+        [
+          "7",
+          "119"
+        ],
+        [
+          "7",
+          "120"
+        ],
+        [
+          "7",
+          "121"
+        ],
+        [
+          "7",
+          "122"
+        ],
+        [
+          "7",
+          "123"
+        ],
+        [
+          "7",
+          "124"
+        ],
+        [
+          "7",
+          "125"
+        ],
+        [
+          "7",
+          "126"
+        ],
+        [
+          "7",
+          "127"
+        ],
+        [
+          "7",
+          "128"
+        ],
+        [
+          "7",
+          "129"
+        ],
+        [
+          "7",
+          "130"
+        ],
+        [
+          "7",
+          "131"
+        ],
+        [
+          "7",
+          "132"
+        ],
+        [
+          "7",
+          "133"
+        ],
+        [
+          "7",
+          "134"
+        ],
+        [
+          "7",
+          "135"
+        ],
+        [
+          "7",
+          "136"
+        ],
+        [
+          "7",
+          "137"
+        ],
+        [
+          "7",
+          "138"
+        ],
+        [
+          "7",
+          "139"
+        ]
+      ],
+      "ESG": [
+        [
+          "1",
+          "1"
+        ],
+        [
+          "7",
+          "1"
+        ],
+        [
+          "7",
+          "2"
+        ],
+        [
+          "7",
+          "3"
+        ],
+        [
+          "7",
+          "4"
+        ],
+        [
+          "7",
+          "5"
+        ],
+        [
+          "7",
+          "6"
+        ],
+        [
+          "7",
+          "7"
+        ],
+        [
+          "7",
+          "8"
+        ],
+        [
+          "7",
+          "9"
+        ],
+        [
+          "7",
+          "10"
+        ],
+        [
+          "7",
+          "11"
+        ],
+        [
+          "7",
+          "12"
+        ],
+        [
+          "7",
+          "13"
+        ],
+        [
+          "8",
+          "6"
+        ],
+        [
+          "9",
+          "1"
+        ],
+        [
+          "9",
+          "2"
+        ],
+        [
+          "9",
+          "3"
+        ],
+        [
+          "9",
+          "4"
+        ],
+        [
+          "9",
+          "5"
+        ],
+        [
+          "9",
+          "6"
+        ],
+        [
+          "9",
+          "7"
+        ],
+        [
+          "12",
+          "1"
+        ],
+        [
+          "12",
+          "2"
+        ],
+        [
+          "17",
+          "1"
+        ],
+        [
+          "17",
+          "2"
+        ],
+        [
+          "17",
+          "3"
+        ],
+        [
+          "17",
+          "4"
+        ],
+        [
+          "17",
+          "5"
+        ],
+        [
+          "17",
+          "6"
+        ],
+        [
+          "17",
+          "7"
+        ],
+        [
+          "17",
+          "8"
+        ],
+        [
+          "17",
+          "9"
+        ],
+        [
+          "17",
+          "10"
+        ],
+        [
+          "17",
+          "11"
+        ],
+        [
+          "17",
+          "12"
+        ],
+        [
+          "18",
+          "5"
+        ],
+        [
+          "20",
+          "1"
+        ],
+        [
+          "20",
+          "2"
+        ],
+        [
+          "20",
+          "3"
+        ]
+      ],
+      "SIR": [
+        [
+          "1",
+          "5"
+        ],
+        [
+          "1",
+          "7"
+        ],
+        [
+          "1",
+          "21"
+        ],
+        [
+          "3",
+          "19"
+        ],
+        [
+          "3",
+          "25"
+        ],
+        [
+          "10",
+          "21"
+        ],
+        [
+          "11",
+          "15"
+        ],
+        [
+          "11",
+          "16"
+        ],
+        [
+          "13",
+          "14"
+        ],
+        [
+          "16",
+          "15"
+        ],
+        [
+          "16",
+          "16"
+        ],
+        [
+          "17",
+          "5"
+        ],
+        [
+          "17",
+          "9"
+        ],
+        [
+          "17",
+          "16"
+        ],
+        [
+          "17",
+          "18"
+        ],
+        [
+          "17",
+          "21"
+        ],
+        [
+          "18",
+          "3"
+        ],
+        [
+          "19",
+          "18"
+        ],
+        [
+          "19",
+          "19"
+        ],
+        [
+          "19",
+          "21"
+        ],
+        [
+          "20",
+          "3"
+        ],
+        [
+          "21",
+          "20"
+        ],
+        [
+          "21",
+          "21"
+        ],
+        [
+          "22",
+          "9"
+        ],
+        [
+          "22",
+          "10"
+        ],
+        [
+          "24",
+          "18"
+        ],
+        [
+          "24",
+          "24"
+        ],
+        [
+          "25",
+          "12"
+        ]
+      ]
+    },
     "combined": {},
     "reordered": {}
   },
-  "GNT92": {
+  "RSV52": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -52635,7 +46538,7 @@
         "16": "43",
         "17": "27",
         "18": "17",
-        "19": "20",
+        "19": "19",
         "20": "8",
         "21": "30",
         "22": "19",
@@ -53025,7 +46928,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "20",
+        "38": "22",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -53268,7 +47171,7 @@
         "1": "21",
         "2": "13",
         "3": "10",
-        "4": "10",
+        "4": "14",
         "5": "11",
         "6": "15",
         "7": "14",
@@ -53335,7 +47238,7 @@
         "13": "37",
         "14": "72",
         "15": "47",
-        "16": "10"
+        "16": "20"
       },
       "LUK": {
         "numChapters": "24",
@@ -53471,7 +47374,7 @@
         "10": "18",
         "11": "33",
         "12": "21",
-        "13": "13"
+        "13": "14"
       },
       "GAL": {
         "numChapters": "6",
@@ -53573,873 +47476,8124 @@
         "numChapters": "5",
         "1": "25",
         "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
-        "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "18",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      },
-      "BAR": {
-        "numChapters": "5",
-        "1": "21",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "GES": {
-        "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
-      },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
-      },
-      "ESA": {
-        "numChapters": "21",
-        "1": "11",
-        "2": "17",
-        "3": "22",
-        "4": "23",
-        "5": "13",
-        "6": "7",
-        "7": "15",
-        "8": "17",
-        "9": "11",
-        "10": "30",
-        "11": "16",
-        "12": "14",
-        "13": "14",
-        "14": "10",
-        "15": "12",
-        "16": "24",
-        "17": "17",
-        "18": "32",
-        "19": "3",
-        "20": "10",
-        "21": "0"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "73"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "35",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "13",
-        "16": "25"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "31",
-        "34": "26",
-        "35": "20",
-        "36": "26",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "23",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "21",
-        "6": "17",
-        "7": "18",
-        "8": "21",
-        "9": "6",
-        "10": "12",
-        "11": "18",
-        "12": "22",
-        "13": "18",
-        "14": "15"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "20",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
+        "3": "22",
+        "4": "19",
+        "5": "14"
       },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
       },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
       },
-      "PAZ": {
-        "numChapters": "2",
-        "1": "0",
-        "3": "68"
-      }
-    },
-    "omitted": {
-      "EZR": [
-        [
-          "2",
-          "3"
-        ],
-        [
-          "2",
-          "4"
-        ],
-        [
-          "2",
-          "5"
-        ],
-        [
-          "2",
-          "6"
-        ],
-        [
-          "2",
-          "7"
-        ],
-        [
-          "2",
-          "8"
-        ],
-        [
-          "2",
-          "9"
-        ],
-        [
-          "2",
-          "10"
-        ],
-        [
-          "2",
-          "11"
-        ],
-        [
-          "2",
-          "12"
-        ],
-        [
-          "2",
-          "13"
-        ],
-        [
-          "2",
-          "14"
-        ],
-        [
-          "2",
-          "15"
-        ],
-        [
-          "2",
-          "16"
-        ],
-        [
-          "2",
-          "17"
-        ],
-        [
-          "2",
-          "18"
-        ],
-        [
-          "2",
-          "19"
-        ],
-        [
-          "2",
-          "20"
-        ]
-      ],
-      "ISA": [
-        [
-          "38",
-          "7"
-        ],
-        [
-          "38",
-          "8"
-        ],
-        [
-          "38",
-          "9"
-        ],
-        [
-          "38",
-          "10"
-        ],
-        [
-          "38",
-          "11"
-        ],
-        [
-          "38",
-          "12"
-        ],
-        [
-          "38",
-          "13"
-        ],
-        [
-          "38",
-          "14"
-        ],
-        [
-          "38",
-          "15"
-        ],
-        [
-          "38",
-          "16"
-        ],
-        [
-          "38",
-          "17"
-        ],
-        [
-          "38",
-          "18"
-        ],
-        [
-          "38",
-          "19"
-        ],
-        [
-          "38",
-          "20"
-        ]
-      ],
-      "ZEC": [
-        [
-          "4",
-          "6"
-        ],
-        [
-          "4",
-          "7"
-        ],
-        [
-          "4",
-          "8"
-        ],
-        [
-          "4",
-          "9"
-        ]
-      ],
-      "MAT": [
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
-          "11"
-        ],
-        [
-          "21",
-          "44"
-        ],
-        [
-          "23",
-          "14"
-        ]
-      ],
-      "MRK": [
-        [
-          "7",
-          "16"
-        ],
-        [
-          "9",
-          "44"
-        ],
-        [
-          "9",
-          "46"
-        ],
-        [
-          "11",
-          "26"
-        ],
-        [
-          "15",
-          "28"
-        ]
-      ],
-      "LUK": [
-        [
-          "17",
-          "36"
-        ],
-        [
-          "23",
-          "17"
-        ]
-      ],
-      "JHN": [
-        [
-          "5",
-          "4"
-        ]
-      ],
-      "ACT": [
-        [
-          "8",
-          "37"
-        ],
-        [
-          "15",
-          "34"
-        ],
-        [
-          "24",
-          "7"
-        ],
-        [
-          "28",
-          "29"
-        ]
-      ],
-      "ROM": [
-        [
-          "16",
-          "24"
-        ]
-      ],
-      "GES": [
-        [
-          "5",
-          "41"
-        ],
-        [
-          "5",
-          "42"
-        ],
-        [
-          "5",
-          "43"
-        ]
-      ],
-      "ESA": [
-        [
-          "2",
-          "1"
-        ],
-        [
-          "2",
-          "2"
-        ],
-        [
-          "2",
-          "3"
-        ],
-        [
-          "2",
-          "4"
-        ],
-        [
-          "2",
-          "5"
-        ],
-        [
-          "2",
-          "6"
-        ],
-        [
-          "2",
-          "7"
-        ],
-        [
-          "2",
-          "8"
-        ],
-        [
-          "2",
-          "9"
-        ],
-        [
-          "2",
-          "10"
-        ],
-        [
-          "2",
-          "11"
-        ],
-        [
-          "7",
-          "1"
-        ],
-        [
-          "7",
-          "2"
-        ],
-        [
-          "7",
-          "3"
-        ],
-        [
-          "7",
-          "4"
-        ],
-        [
-          "7",
-          "5"
-        ],
-        [
-          "7",
-          "6"
-        ],
-        [
-          "7",
-          "7"
-        ],
-        [
-          "7",
-          "8"
-        ],
-        [
-          "7",
-          "9"
-        ],
-        [
-          "7",
-          "10"
-        ],
-        [
-          "7",
-          "11"
-        ],
-        [
-          "7",
-          "12"
-        ],
-        [
-          "7",
-          "13"
-        ],
-        [
-          "8",
-          "6"
-        ],
-        [
-          "10",
-          "1"
-        ],
-        [
-          "10",
-          "2"
-        ],
-        [
-          "10",
-          "3"
-        ],
-        [
-          "10",
-          "4"
-        ],
-        [
-          "10",
-          "5"
-        ],
-        [
-          "10",
-          "6"
-        ],
-        [
-          "10",
-          "7"
-        ],
-        [
-          "10",
-          "8"
-        ],
-        [
-          "10",
-          "9"
-        ],
-        [
-          "10",
-          "10"
-        ],
-        [
-          "10",
-          "11"
-        ],
-        [
-          "12",
-          "1"
-        ],
-        [
-          "12",
-          "2"
-        ],
-        [
-          "17",
-          "1"
-        ],
-        [
-          "17",
-          "2"
-        ],
-        [
-          "17",
-          "3"
-        ],
-        [
-          "17",
-          "4"
-        ],
-        [
-          "17",
-          "5"
-        ],
-        [
-          "17",
-          "6"
-        ],
-        [
-          "17",
-          "7"
-        ],
-        [
-          "17",
-          "8"
-        ],
-        [
-          "17",
-          "9"
-        ],
-        [
-          "17",
-          "10"
-        ],
-        [
-          "17",
-          "11"
-        ],
-        [
-          "17",
-          "12"
-        ]
-      ],
-      "SIR": [
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "17",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "21",
+        "2": "35",
+        "3": "37",
+        "4": "37",
+        "5": "9"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "30",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "96",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "ESG": {
+        "numChapters": "7",
+        "1": "13",
+        "2": "12",
+        "3": "6",
+        "4": "18",
+        "5": "19",
+        "6": "16",
+        "7": "24"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "73"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "13",
+        "16": "25"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "32",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "31",
+        "34": "26",
+        "35": "20",
+        "36": "26",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "23",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "21",
+        "6": "17",
+        "7": "18",
+        "8": "21",
+        "9": "6",
+        "10": "12",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "21",
+        "18": "25",
+        "19": "22"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "29",
+        "2": "33",
+        "3": "30",
+        "4": "21",
+        "5": "51",
+        "6": "41",
+        "7": "23"
+      },
+      "MA4": {
+        "numChapters": "18",
+        "1": "35",
+        "2": "24",
+        "3": "21",
+        "4": "26",
+        "5": "38",
+        "6": "35",
+        "7": "23",
+        "8": "29",
+        "9": "32",
+        "10": "21",
+        "11": "27",
+        "12": "19",
+        "13": "27",
+        "14": "20",
+        "15": "32",
+        "16": "25",
+        "17": "24",
+        "18": "24"
+      },
+      "PS2": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "PAZ": {
+        "numChapters": "1",
+        "1": "68"
+      }
+    },
+    "omitted": {
+      "ESG": [
         [
           "1",
-          "5"
+          "1"
         ],
         [
           "1",
-          "7"
+          "2"
         ],
         [
           "1",
-          "21"
-        ],
-        [
-          "3",
-          "19"
-        ],
-        [
-          "3",
-          "25"
-        ],
-        [
-          "10",
-          "21"
-        ],
-        [
-          "16",
-          "15"
-        ],
-        [
-          "16",
-          "16"
-        ],
-        [
-          "17",
-          "5"
-        ],
-        [
-          "17",
-          "9"
-        ],
-        [
-          "17",
-          "16"
-        ],
-        [
-          "17",
-          "18"
-        ],
-        [
-          "17",
-          "21"
-        ],
-        [
-          "18",
           "3"
-        ],
-        [
-          "19",
-          "18"
-        ],
-        [
-          "19",
-          "19"
-        ],
-        [
-          "19",
-          "21"
-        ],
-        [
-          "22",
-          "9"
-        ],
-        [
-          "22",
-          "10"
-        ],
-        [
-          "24",
-          "18"
-        ],
-        [
-          "24",
-          "24"
-        ],
-        [
-          "25",
-          "12"
-        ],
-        [
-          "26",
-          "19"
-        ],
-        [
-          "26",
-          "20"
-        ],
-        [
-          "26",
-          "21"
-        ],
-        [
-          "26",
-          "22"
-        ],
-        [
-          "26",
-          "23"
-        ],
-        [
-          "26",
-          "24"
-        ],
-        [
-          "26",
-          "25"
-        ],
-        [
-          "26",
-          "26"
-        ],
-        [
-          "26",
-          "27"
         ]
       ]
     },
     "combined": {},
     "reordered": {}
   },
-  "Spanish": {
+  "Rahlfs": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "54",
+        "32": "33",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "29",
+        "8": "28",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "37",
+        "22": "30",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "21",
+        "38": "27",
+        "39": "23",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "26",
+        "6": "23",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "57",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "26",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "16",
+        "13": "33",
+        "14": "45",
+        "15": "41",
+        "16": "35",
+        "17": "28",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "18",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "39",
+        "30": "17",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "31",
+        "13": "19",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "29",
+        "23": "26",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "69",
+        "29": "28",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "29",
+        "9": "27",
+        "10": "42",
+        "11": "23",
+        "12": "24",
+        "13": "32",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JSA": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "29",
+        "9": "27",
+        "10": "42",
+        "11": "23",
+        "12": "24",
+        "13": "32",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JGB": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "54",
+        "18": "29",
+        "19": "24",
+        "20": "42",
+        "21": "16",
+        "22": "23",
+        "23": "28",
+        "24": "23",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "32",
+        "19": "44",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "19",
+        "5": "32",
+        "6": "36",
+        "7": "50",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "29",
+        "21": "43",
+        "22": "54"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "20",
+        "12": "22",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "41",
+        "6": "66",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "41",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "18",
+        "2": "17",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
+        "13": "23",
+        "14": "14",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
+      },
+      "EZN": {
+        "numChapters": "9",
+        "1": "55",
+        "2": "26",
+        "3": "24",
+        "4": "63",
+        "5": "71",
+        "6": "33",
+        "7": "15",
+        "8": "92",
+        "9": "55"
+      },
+      "EZR": {
+        "numChapters": "23",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44",
+        "11": "11",
+        "12": "20",
+        "13": "37",
+        "14": "17",
+        "15": "19",
+        "16": "19",
+        "17": "73",
+        "18": "18",
+        "19": "37",
+        "20": "40",
+        "21": "36",
+        "22": "47",
+        "23": "31"
+      },
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "TBS": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "29",
+        "2": "33",
+        "3": "30",
+        "4": "21",
+        "5": "51",
+        "6": "41",
+        "7": "23"
+      },
+      "MA4": {
+        "numChapters": "18",
+        "1": "35",
+        "2": "24",
+        "3": "21",
+        "4": "26",
+        "5": "38",
+        "6": "35",
+        "7": "23",
+        "8": "29",
+        "9": "32",
+        "10": "21",
+        "11": "27",
+        "12": "19",
+        "13": "27",
+        "14": "20",
+        "15": "32",
+        "16": "25",
+        "17": "24",
+        "18": "24"
+      },
+      "PSA": {
+        "numChapters": "151",
+        "1": "6",
+        "2": "12",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
+        "91": "16",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
+        "98": "9",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
+        "111": "10",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
+        "129": "8",
+        "130": "3",
+        "131": "18",
+        "132": "3",
+        "133": "3",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
+        "148": "14",
+        "149": "9",
+        "150": "6",
+        "151": "7"
+      },
+      "ODE": {
+        "numChapters": "14",
+        "1": "19",
+        "2": "43",
+        "3": "10",
+        "4": "19",
+        "5": "20",
+        "6": "10",
+        "7": "45",
+        "8": "88",
+        "9": "79",
+        "10": "9",
+        "11": "20",
+        "12": "15",
+        "13": "32",
+        "14": "46"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "22",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "17",
+        "5": "19",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "17",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "12",
+        "7": "14",
+        "8": "14"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "30",
+        "40": "32",
+        "41": "26",
+        "42": "17"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "22"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "33",
+        "34": "26",
+        "35": "24",
+        "36": "27",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "27",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "PSS": {
+        "numChapters": "18",
+        "1": "8",
+        "2": "37",
+        "3": "12",
+        "4": "25",
+        "5": "19",
+        "6": "6",
+        "7": "10",
+        "8": "34",
+        "9": "11",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "12",
+        "14": "10",
+        "15": "13",
+        "16": "15",
+        "17": "46",
+        "18": "12"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "9",
+        "2": "25",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "11",
+        "12": "15",
+        "13": "15",
+        "14": "10"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "14",
+        "5": "14",
+        "6": "16",
+        "7": "20"
+      },
+      "JOL": {
+        "numChapters": "4",
+        "1": "20",
+        "2": "27",
+        "3": "5",
+        "4": "21"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "14",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "17",
+        "2": "17",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "17",
+        "3": "24"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "21",
+        "3": "26",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "23",
+        "9": "20",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "11",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "11",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "23",
+        "9": "25",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "20",
+        "26": "28",
+        "27": "46",
+        "28": "64",
+        "29": "7",
+        "30": "33",
+        "31": "44",
+        "32": "38",
+        "33": "24",
+        "34": "22",
+        "35": "17",
+        "36": "32",
+        "37": "24",
+        "38": "40",
+        "39": "44",
+        "40": "13",
+        "41": "22",
+        "42": "19",
+        "43": "32",
+        "44": "21",
+        "45": "28",
+        "46": "18",
+        "47": "16",
+        "48": "18",
+        "49": "22",
+        "50": "13",
+        "51": "35",
+        "52": "34"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "72"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "44",
+        "21": "37",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "SST": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "DAN": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
+        "5": "30",
+        "6": "29",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "DNT": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
+        "5": "30",
+        "6": "29",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "BLT": {
+        "numChapters": "1",
+        "1": "42"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "RussianCanonical": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "55",
+        "32": "32",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "25",
+        "8": "32",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "36",
+        "22": "31",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "29",
+        "38": "31",
+        "39": "43",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "19",
+        "6": "30",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "56",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "27",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "15",
+        "13": "34",
+        "14": "45",
+        "15": "41",
+        "16": "50",
+        "17": "13",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "18",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "39",
+        "30": "17",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "32",
+        "13": "18",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "30",
+        "23": "25",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "68",
+        "29": "29",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "16",
+        "6": "26",
+        "7": "26",
+        "8": "35",
+        "9": "27",
+        "10": "43",
+        "11": "23",
+        "12": "24",
+        "13": "33",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "58",
+        "18": "30",
+        "19": "24",
+        "20": "43",
+        "21": "15",
+        "22": "23",
+        "23": "28",
+        "24": "23",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "33",
+        "19": "43",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "34",
+        "5": "18",
+        "6": "38",
+        "7": "51",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "43",
+        "21": "29",
+        "22": "53"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "21",
+        "12": "21",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "26",
+        "6": "81",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "40",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "17",
+        "2": "18",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
+        "13": "22",
+        "14": "15",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
+      },
+      "EZR": {
+        "numChapters": "10",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44"
+      },
+      "NEH": {
+        "numChapters": "13",
+        "1": "11",
+        "2": "20",
+        "3": "32",
+        "4": "23",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "38",
+        "10": "39",
+        "11": "36",
+        "12": "47",
+        "13": "31"
+      },
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "35",
+        "40": "27",
+        "41": "26",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "12",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
+        "91": "16",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
+        "98": "9",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
+        "111": "10",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
+        "129": "8",
+        "130": "3",
+        "131": "18",
+        "132": "3",
+        "133": "3",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "7",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
+        "148": "14",
+        "149": "9",
+        "150": "6"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "24",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "17",
+        "5": "19",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "16",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "12",
+        "7": "14",
+        "8": "14"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "22",
+        "3": "25",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "22",
+        "9": "21",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "12",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "12",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "22",
+        "9": "26",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
+        "34": "22",
+        "35": "19",
+        "36": "32",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "49",
+        "21": "32",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "DAN": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "33",
+        "4": "34",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "23",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "15",
+        "14": "10"
+      },
+      "JOL": {
+        "numChapters": "3",
+        "1": "20",
+        "2": "32",
+        "3": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
+        "5": "15",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "40",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "26",
+        "15": "33",
+        "16": "24"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "32",
+        "12": "21",
+        "13": "13"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "17",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "RussianOrthodox": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "55",
+        "32": "32",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "25",
+        "8": "32",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "36",
+        "22": "31",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "29",
+        "38": "31",
+        "39": "43",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "19",
+        "6": "30",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "56",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "27",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "15",
+        "13": "34",
+        "14": "45",
+        "15": "41",
+        "16": "50",
+        "17": "13",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "18",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "39",
+        "30": "17",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "32",
+        "13": "18",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "30",
+        "23": "25",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "68",
+        "29": "29",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "16",
+        "6": "26",
+        "7": "26",
+        "8": "35",
+        "9": "27",
+        "10": "43",
+        "11": "23",
+        "12": "24",
+        "13": "33",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "36"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "58",
+        "18": "30",
+        "19": "24",
+        "20": "43",
+        "21": "15",
+        "22": "23",
+        "23": "28",
+        "24": "23",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "33",
+        "19": "43",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "34",
+        "5": "18",
+        "6": "38",
+        "7": "51",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "43",
+        "21": "29",
+        "22": "53"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "21",
+        "12": "21",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "26",
+        "6": "81",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "40",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "37",
+        "1": "17",
+        "2": "18",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
+        "13": "22",
+        "14": "15",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23",
+        "37": "12"
+      },
+      "EZR": {
+        "numChapters": "10",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44"
+      },
+      "NEH": {
+        "numChapters": "13",
+        "1": "11",
+        "2": "20",
+        "3": "32",
+        "4": "23",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "38",
+        "10": "39",
+        "11": "36",
+        "12": "47",
+        "13": "31"
+      },
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "35",
+        "40": "27",
+        "41": "26",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "151",
+        "1": "6",
+        "2": "12",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
+        "91": "16",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
+        "98": "9",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
+        "111": "10",
+        "112": "9",
+        "113": "26",
+        "114": "8",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
+        "129": "8",
+        "130": "3",
+        "131": "18",
+        "132": "3",
+        "133": "3",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "7",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
+        "148": "14",
+        "149": "9",
+        "150": "6",
+        "151": "7"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "29",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "26",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "25",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "17",
+        "5": "19",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "16",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "12",
+        "7": "14",
+        "8": "14"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "22",
+        "3": "25",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "22",
+        "9": "21",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "12",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "12",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "22",
+        "9": "26",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
+        "34": "22",
+        "35": "19",
+        "36": "32",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "49",
+        "21": "32",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "DAN": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "100",
+        "4": "34",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "42"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "23",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "15",
+        "14": "10"
+      },
+      "JOL": {
+        "numChapters": "3",
+        "1": "20",
+        "2": "32",
+        "3": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
+        "5": "15",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "40",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "26",
+        "15": "33",
+        "16": "24"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "32",
+        "12": "21",
+        "13": "13"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "17",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "22",
+        "6": "18",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "13",
+        "11": "18",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
+      "ESG": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "24",
+        "6": "27",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "27",
+        "12": "28",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "21"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "35",
+        "5": "18",
+        "6": "37",
+        "7": "39",
+        "8": "22",
+        "9": "23",
+        "10": "34",
+        "11": "34",
+        "12": "18",
+        "13": "32",
+        "14": "27",
+        "15": "20",
+        "16": "31",
+        "17": "31",
+        "18": "33",
+        "19": "28",
+        "20": "31",
+        "21": "31",
+        "22": "31",
+        "23": "37",
+        "24": "37",
+        "25": "29",
+        "26": "27",
+        "27": "33",
+        "28": "30",
+        "29": "31",
+        "30": "27",
+        "31": "37",
+        "32": "25",
+        "33": "33",
+        "34": "26",
+        "35": "23",
+        "36": "29",
+        "37": "34",
+        "38": "39",
+        "39": "42",
+        "40": "32",
+        "41": "29",
+        "42": "26",
+        "43": "36",
+        "44": "27",
+        "45": "31",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "18",
+        "50": "31",
+        "51": "38"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "72"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "33",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "25",
+        "2": "24",
+        "3": "22",
+        "4": "16",
+        "5": "36",
+        "6": "37",
+        "7": "20"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "31",
+        "3": "24",
+        "4": "63",
+        "5": "70",
+        "6": "34",
+        "7": "15",
+        "8": "92",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "70",
+        "8": "63",
+        "9": "47",
+        "10": "60",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "DNG": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "100",
+        "4": "34",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "42"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "Septuagint": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "54",
+        "32": "33",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "29",
+        "8": "28",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "37",
+        "22": "30",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "21",
+        "38": "27",
+        "39": "23",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "26",
+        "6": "23",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "57",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "26",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "16",
+        "13": "33",
+        "14": "45",
+        "15": "41",
+        "16": "35",
+        "17": "28",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "18",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "39",
+        "30": "17",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "31",
+        "13": "19",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "29",
+        "23": "26",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "69",
+        "29": "28",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "29",
+        "9": "27",
+        "10": "42",
+        "11": "23",
+        "12": "24",
+        "13": "32",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "54",
+        "18": "29",
+        "19": "24",
+        "20": "42",
+        "21": "16",
+        "22": "23",
+        "23": "28",
+        "24": "23",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "32",
+        "19": "44",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "19",
+        "5": "32",
+        "6": "36",
+        "7": "50",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "29",
+        "21": "43",
+        "22": "54"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "20",
+        "12": "22",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "41",
+        "6": "66",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "41",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "18",
+        "2": "17",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "16",
+        "13": "23",
+        "14": "14",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
+      },
+      "EZR": {
+        "numChapters": "23",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44",
+        "11": "11",
+        "12": "20",
+        "13": "32",
+        "14": "23",
+        "15": "19",
+        "16": "19",
+        "17": "73",
+        "18": "18",
+        "19": "38",
+        "20": "39",
+        "21": "36",
+        "22": "47",
+        "23": "31"
+      },
+      "NEH": {
+        "numChapters": "13",
+        "1": "11",
+        "2": "20",
+        "3": "32",
+        "4": "23",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "38",
+        "10": "39",
+        "11": "36",
+        "12": "47",
+        "13": "31"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "30",
+        "40": "32",
+        "41": "26",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "151",
+        "1": "6",
+        "2": "12",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
+        "91": "16",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
+        "98": "9",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
+        "111": "10",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
+        "129": "8",
+        "130": "3",
+        "131": "18",
+        "132": "3",
+        "133": "3",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
+        "148": "14",
+        "149": "9",
+        "150": "6",
+        "151": "7"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "22",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "17",
+        "5": "19",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "17",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "12",
+        "7": "14",
+        "8": "14"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "21",
+        "3": "26",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "23",
+        "9": "20",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "11",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "11",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "23",
+        "9": "25",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "20",
+        "26": "28",
+        "27": "46",
+        "28": "64",
+        "29": "7",
+        "30": "33",
+        "31": "44",
+        "32": "38",
+        "33": "24",
+        "34": "22",
+        "35": "17",
+        "36": "32",
+        "37": "24",
+        "38": "40",
+        "39": "44",
+        "40": "13",
+        "41": "22",
+        "42": "19",
+        "43": "32",
+        "44": "21",
+        "45": "28",
+        "46": "18",
+        "47": "16",
+        "48": "18",
+        "49": "22",
+        "50": "13",
+        "51": "35",
+        "52": "34"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "44",
+        "21": "37",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "DAN": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
+        "5": "30",
+        "6": "29",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "9",
+        "2": "25",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "11",
+        "12": "15",
+        "13": "15",
+        "14": "10"
+      },
+      "JOL": {
+        "numChapters": "4",
+        "1": "20",
+        "2": "27",
+        "3": "5",
+        "4": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "14",
+        "5": "14",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "14",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "17",
+        "2": "17",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "3",
+        "1": "14",
+        "2": "17",
+        "3": "24"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "40",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "23",
+        "15": "33",
+        "16": "27"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "13"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "23",
+        "6": "19",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "14",
+        "11": "19",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
+      "ESG": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "23",
+        "6": "25",
+        "7": "30",
+        "8": "21",
+        "9": "18",
+        "10": "21",
+        "11": "26",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "22"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "31",
+        "5": "15",
+        "6": "37",
+        "7": "36",
+        "8": "19",
+        "9": "18",
+        "10": "31",
+        "11": "34",
+        "12": "18",
+        "13": "26",
+        "14": "27",
+        "15": "20",
+        "16": "30",
+        "17": "32",
+        "18": "33",
+        "19": "30",
+        "20": "31",
+        "21": "28",
+        "22": "27",
+        "23": "27",
+        "24": "34",
+        "25": "26",
+        "26": "29",
+        "27": "30",
+        "28": "26",
+        "29": "28",
+        "30": "25",
+        "31": "31",
+        "32": "24",
+        "33": "33",
+        "34": "26",
+        "35": "24",
+        "36": "27",
+        "37": "31",
+        "38": "34",
+        "39": "35",
+        "40": "30",
+        "41": "27",
+        "42": "25",
+        "43": "33",
+        "44": "23",
+        "45": "26",
+        "46": "20",
+        "47": "25",
+        "48": "25",
+        "49": "16",
+        "50": "29",
+        "51": "30"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "72"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "63"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "32",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "29",
+        "2": "33",
+        "3": "30",
+        "4": "21",
+        "5": "51",
+        "6": "41",
+        "7": "23"
+      },
+      "MA4": {
+        "numChapters": "18",
+        "1": "35",
+        "2": "24",
+        "3": "21",
+        "4": "26",
+        "5": "38",
+        "6": "35",
+        "7": "23",
+        "8": "29",
+        "9": "32",
+        "10": "21",
+        "11": "27",
+        "12": "19",
+        "13": "27",
+        "14": "20",
+        "15": "32",
+        "16": "25",
+        "17": "24",
+        "18": "24"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "55",
+        "2": "26",
+        "3": "24",
+        "4": "63",
+        "5": "71",
+        "6": "33",
+        "7": "15",
+        "8": "92",
+        "9": "55"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "59",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "PS2": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "ODE": {
+        "numChapters": "14",
+        "1": "19",
+        "2": "43",
+        "3": "10",
+        "4": "19",
+        "5": "12",
+        "6": "8",
+        "7": "20",
+        "8": "37",
+        "9": "22",
+        "10": "9",
+        "11": "11",
+        "12": "15",
+        "13": "4",
+        "14": "46"
+      },
+      "PSS": {
+        "numChapters": "18",
+        "1": "8",
+        "2": "37",
+        "3": "12",
+        "4": "25",
+        "5": "19",
+        "6": "6",
+        "7": "10",
+        "8": "34",
+        "9": "11",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "12",
+        "14": "10",
+        "15": "13",
+        "16": "15",
+        "17": "46",
+        "18": "12"
+      },
+      "DNG": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "42"
+      },
+      "PS3": {
+        "numChapters": "4",
+        "1": "17",
+        "2": "20",
+        "3": "6",
+        "4": "6"
+      },
+      "BA2": {
+        "numChapters": "77",
+        "1": "5",
+        "2": "2",
+        "3": "9",
+        "4": "7",
+        "5": "7",
+        "6": "10",
+        "7": "2",
+        "8": "5",
+        "9": "1",
+        "10": "19",
+        "11": "7",
+        "12": "5",
+        "13": "12",
+        "14": "19",
+        "15": "8",
+        "16": "1",
+        "17": "4",
+        "18": "2",
+        "19": "8",
+        "20": "6",
+        "21": "26",
+        "22": "8",
+        "23": "7",
+        "24": "4",
+        "25": "4",
+        "26": "1",
+        "27": "15",
+        "28": "7",
+        "29": "8",
+        "30": "5",
+        "31": "5",
+        "32": "9",
+        "33": "3",
+        "34": "1",
+        "35": "5",
+        "36": "10",
+        "37": "1",
+        "38": "4",
+        "39": "8",
+        "40": "4",
+        "41": "6",
+        "42": "8",
+        "43": "3",
+        "44": "15",
+        "45": "2",
+        "46": "7",
+        "47": "2",
+        "48": "50",
+        "49": "3",
+        "50": "4",
+        "51": "16",
+        "52": "8",
+        "53": "12",
+        "54": "22",
+        "55": "8",
+        "56": "16",
+        "57": "3",
+        "58": "2",
+        "59": "12",
+        "60": "2",
+        "61": "8",
+        "62": "8",
+        "63": "11",
+        "64": "10",
+        "65": "2",
+        "66": "8",
+        "67": "9",
+        "68": "8",
+        "69": "5",
+        "70": "10",
+        "71": "3",
+        "72": "6",
+        "73": "7",
+        "74": "4",
+        "75": "8",
+        "76": "5",
+        "77": "26"
+      },
+      "LBA": {
+        "numChapters": "9",
+        "78": "7",
+        "79": "3",
+        "80": "7",
+        "81": "4",
+        "82": "9",
+        "83": "23",
+        "84": "11",
+        "85": "15",
+        "86": "3"
+      },
+      "JUB": {
+        "numChapters": "34",
+        "1": "26",
+        "2": "17",
+        "3": "19",
+        "4": "24",
+        "5": "36",
+        "6": "34",
+        "7": "37",
+        "8": "40",
+        "9": "27",
+        "10": "48",
+        "11": "39",
+        "12": "56",
+        "13": "34",
+        "14": "55",
+        "15": "20",
+        "16": "28",
+        "17": "30",
+        "18": "31",
+        "19": "59",
+        "20": "66",
+        "21": "30",
+        "22": "38",
+        "23": "59",
+        "24": "30",
+        "25": "50",
+        "26": "48",
+        "27": "37",
+        "28": "38",
+        "29": "27",
+        "30": "29",
+        "31": "31",
+        "32": "24",
+        "33": "30",
+        "34": "20"
+      },
+      "ENO": {
+        "numChapters": "42",
+        "1": "28",
+        "2": "42",
+        "3": "30",
+        "4": "88",
+        "5": "40",
+        "6": "42",
+        "7": "39",
+        "8": "46",
+        "9": "42",
+        "10": "16",
+        "11": "19",
+        "12": "40",
+        "13": "34",
+        "14": "35",
+        "15": "45",
+        "16": "41",
+        "17": "69",
+        "18": "42",
+        "19": "29",
+        "20": "53",
+        "21": "57",
+        "22": "14",
+        "23": "26",
+        "24": "16",
+        "25": "30",
+        "26": "37",
+        "27": "21",
+        "28": "34",
+        "29": "28",
+        "30": "23",
+        "31": "29",
+        "32": "82",
+        "33": "59",
+        "34": "49",
+        "35": "36",
+        "36": "30",
+        "37": "34",
+        "38": "36",
+        "39": "24",
+        "40": "40",
+        "41": "22",
+        "42": "16"
+      },
+      "MQ1": {
+        "numChapters": "36",
+        "1": "28",
+        "2": "28",
+        "3": "38",
+        "4": "37",
+        "5": "39",
+        "6": "38",
+        "7": "33",
+        "8": "35",
+        "9": "10",
+        "10": "8",
+        "11": "8",
+        "12": "44",
+        "13": "27",
+        "14": "23",
+        "15": "20",
+        "16": "9",
+        "17": "8",
+        "18": "12",
+        "19": "17",
+        "20": "4",
+        "21": "31",
+        "22": "11",
+        "23": "7",
+        "24": "22",
+        "25": "18",
+        "26": "5",
+        "27": "20",
+        "28": "49",
+        "29": "17",
+        "30": "16",
+        "31": "7",
+        "32": "4",
+        "33": "11",
+        "34": "18",
+        "35": "8",
+        "36": "46"
+      },
+      "MQ2": {
+        "numChapters": "20",
+        "1": "13",
+        "2": "11",
+        "3": "29",
+        "4": "32",
+        "5": "18",
+        "6": "24",
+        "7": "9",
+        "8": "24",
+        "9": "27",
+        "10": "28",
+        "11": "25",
+        "12": "15",
+        "13": "14",
+        "14": "36",
+        "15": "21",
+        "16": "15",
+        "17": "12",
+        "18": "14",
+        "19": "15",
+        "20": "14"
+      },
+      "MQ3": {
+        "numChapters": "10",
+        "1": "24",
+        "2": "23",
+        "3": "11",
+        "4": "36",
+        "5": "16",
+        "6": "16",
+        "7": "5",
+        "8": "12",
+        "9": "36",
+        "10": "29"
+      },
+      "REP": {
+        "numChapters": "6",
+        "1": "28",
+        "2": "28",
+        "3": "27",
+        "4": "28",
+        "5": "27",
+        "6": "22"
+      },
+      "BA4": {
+        "numChapters": "5",
+        "1": "30",
+        "2": "29",
+        "3": "30",
+        "4": "33",
+        "5": "62"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "Spanish": {
+    "CV": {
+      "GEN": {
+        "numChapters": "50",
+        "1": "31",
+        "2": "25",
+        "3": "24",
+        "4": "26",
+        "5": "32",
+        "6": "22",
+        "7": "24",
+        "8": "22",
+        "9": "29",
+        "10": "32",
+        "11": "32",
+        "12": "20",
+        "13": "18",
+        "14": "24",
+        "15": "21",
+        "16": "16",
+        "17": "27",
+        "18": "33",
+        "19": "38",
+        "20": "18",
+        "21": "34",
+        "22": "24",
+        "23": "20",
+        "24": "67",
+        "25": "34",
+        "26": "35",
+        "27": "46",
+        "28": "22",
+        "29": "35",
+        "30": "43",
+        "31": "55",
+        "32": "32",
+        "33": "20",
+        "34": "31",
+        "35": "29",
+        "36": "43",
+        "37": "36",
+        "38": "30",
+        "39": "23",
+        "40": "23",
+        "41": "57",
+        "42": "38",
+        "43": "34",
+        "44": "34",
+        "45": "28",
+        "46": "34",
+        "47": "31",
+        "48": "22",
+        "49": "33",
+        "50": "26"
+      },
+      "EXO": {
+        "numChapters": "40",
+        "1": "22",
+        "2": "25",
+        "3": "22",
+        "4": "31",
+        "5": "23",
+        "6": "30",
+        "7": "25",
+        "8": "32",
+        "9": "35",
+        "10": "29",
+        "11": "10",
+        "12": "51",
+        "13": "22",
+        "14": "31",
+        "15": "27",
+        "16": "36",
+        "17": "16",
+        "18": "27",
+        "19": "25",
+        "20": "26",
+        "21": "36",
+        "22": "31",
+        "23": "33",
+        "24": "18",
+        "25": "40",
+        "26": "37",
+        "27": "21",
+        "28": "43",
+        "29": "46",
+        "30": "38",
+        "31": "18",
+        "32": "35",
+        "33": "23",
+        "34": "35",
+        "35": "35",
+        "36": "38",
+        "37": "29",
+        "38": "31",
+        "39": "43",
+        "40": "38"
+      },
+      "LEV": {
+        "numChapters": "27",
+        "1": "17",
+        "2": "16",
+        "3": "17",
+        "4": "35",
+        "5": "19",
+        "6": "30",
+        "7": "38",
+        "8": "36",
+        "9": "24",
+        "10": "20",
+        "11": "47",
+        "12": "8",
+        "13": "59",
+        "14": "57",
+        "15": "33",
+        "16": "34",
+        "17": "16",
+        "18": "30",
+        "19": "37",
+        "20": "27",
+        "21": "24",
+        "22": "33",
+        "23": "44",
+        "24": "23",
+        "25": "55",
+        "26": "46",
+        "27": "34"
+      },
+      "NUM": {
+        "numChapters": "36",
+        "1": "54",
+        "2": "34",
+        "3": "51",
+        "4": "49",
+        "5": "31",
+        "6": "27",
+        "7": "89",
+        "8": "26",
+        "9": "23",
+        "10": "36",
+        "11": "35",
+        "12": "16",
+        "13": "33",
+        "14": "45",
+        "15": "41",
+        "16": "50",
+        "17": "13",
+        "18": "32",
+        "19": "22",
+        "20": "29",
+        "21": "35",
+        "22": "41",
+        "23": "30",
+        "24": "25",
+        "25": "19",
+        "26": "65",
+        "27": "23",
+        "28": "31",
+        "29": "40",
+        "30": "16",
+        "31": "54",
+        "32": "42",
+        "33": "56",
+        "34": "29",
+        "35": "34",
+        "36": "13"
+      },
+      "DEU": {
+        "numChapters": "34",
+        "1": "46",
+        "2": "37",
+        "3": "29",
+        "4": "49",
+        "5": "33",
+        "6": "25",
+        "7": "26",
+        "8": "20",
+        "9": "29",
+        "10": "22",
+        "11": "32",
+        "12": "32",
+        "13": "18",
+        "14": "29",
+        "15": "23",
+        "16": "22",
+        "17": "20",
+        "18": "22",
+        "19": "21",
+        "20": "20",
+        "21": "23",
+        "22": "30",
+        "23": "25",
+        "24": "22",
+        "25": "19",
+        "26": "19",
+        "27": "26",
+        "28": "68",
+        "29": "29",
+        "30": "20",
+        "31": "30",
+        "32": "52",
+        "33": "29",
+        "34": "12"
+      },
+      "JOS": {
+        "numChapters": "24",
+        "1": "18",
+        "2": "24",
+        "3": "17",
+        "4": "24",
+        "5": "15",
+        "6": "27",
+        "7": "26",
+        "8": "35",
+        "9": "27",
+        "10": "43",
+        "11": "23",
+        "12": "24",
+        "13": "33",
+        "14": "15",
+        "15": "63",
+        "16": "10",
+        "17": "18",
+        "18": "28",
+        "19": "51",
+        "20": "9",
+        "21": "45",
+        "22": "34",
+        "23": "16",
+        "24": "33"
+      },
+      "JDG": {
+        "numChapters": "21",
+        "1": "36",
+        "2": "23",
+        "3": "31",
+        "4": "24",
+        "5": "31",
+        "6": "40",
+        "7": "25",
+        "8": "35",
+        "9": "57",
+        "10": "18",
+        "11": "40",
+        "12": "15",
+        "13": "25",
+        "14": "20",
+        "15": "20",
+        "16": "31",
+        "17": "13",
+        "18": "31",
+        "19": "30",
+        "20": "48",
+        "21": "25"
+      },
+      "RUT": {
+        "numChapters": "4",
+        "1": "22",
+        "2": "23",
+        "3": "18",
+        "4": "22"
+      },
+      "SA1": {
+        "numChapters": "31",
+        "1": "28",
+        "2": "36",
+        "3": "21",
+        "4": "22",
+        "5": "12",
+        "6": "21",
+        "7": "17",
+        "8": "22",
+        "9": "27",
+        "10": "27",
+        "11": "15",
+        "12": "25",
+        "13": "23",
+        "14": "52",
+        "15": "35",
+        "16": "23",
+        "17": "58",
+        "18": "30",
+        "19": "24",
+        "20": "42",
+        "21": "15",
+        "22": "23",
+        "23": "29",
+        "24": "22",
+        "25": "44",
+        "26": "25",
+        "27": "12",
+        "28": "25",
+        "29": "11",
+        "30": "31",
+        "31": "13"
+      },
+      "SA2": {
+        "numChapters": "24",
+        "1": "27",
+        "2": "32",
+        "3": "39",
+        "4": "12",
+        "5": "25",
+        "6": "23",
+        "7": "29",
+        "8": "18",
+        "9": "13",
+        "10": "19",
+        "11": "27",
+        "12": "31",
+        "13": "39",
+        "14": "33",
+        "15": "37",
+        "16": "23",
+        "17": "29",
+        "18": "33",
+        "19": "43",
+        "20": "26",
+        "21": "22",
+        "22": "51",
+        "23": "39",
+        "24": "25"
+      },
+      "KI1": {
+        "numChapters": "22",
+        "1": "53",
+        "2": "46",
+        "3": "28",
+        "4": "34",
+        "5": "18",
+        "6": "38",
+        "7": "51",
+        "8": "66",
+        "9": "28",
+        "10": "29",
+        "11": "43",
+        "12": "33",
+        "13": "34",
+        "14": "31",
+        "15": "34",
+        "16": "34",
+        "17": "24",
+        "18": "46",
+        "19": "21",
+        "20": "43",
+        "21": "29",
+        "22": "53"
+      },
+      "KI2": {
+        "numChapters": "25",
+        "1": "18",
+        "2": "25",
+        "3": "27",
+        "4": "44",
+        "5": "27",
+        "6": "33",
+        "7": "20",
+        "8": "29",
+        "9": "37",
+        "10": "36",
+        "11": "21",
+        "12": "21",
+        "13": "25",
+        "14": "29",
+        "15": "38",
+        "16": "20",
+        "17": "41",
+        "18": "37",
+        "19": "37",
+        "20": "21",
+        "21": "26",
+        "22": "20",
+        "23": "37",
+        "24": "20",
+        "25": "30"
+      },
+      "CH1": {
+        "numChapters": "29",
+        "1": "54",
+        "2": "55",
+        "3": "24",
+        "4": "43",
+        "5": "26",
+        "6": "81",
+        "7": "40",
+        "8": "40",
+        "9": "44",
+        "10": "14",
+        "11": "47",
+        "12": "40",
+        "13": "14",
+        "14": "17",
+        "15": "29",
+        "16": "43",
+        "17": "27",
+        "18": "17",
+        "19": "19",
+        "20": "8",
+        "21": "30",
+        "22": "19",
+        "23": "32",
+        "24": "31",
+        "25": "31",
+        "26": "32",
+        "27": "34",
+        "28": "21",
+        "29": "30"
+      },
+      "CH2": {
+        "numChapters": "36",
+        "1": "17",
+        "2": "18",
+        "3": "17",
+        "4": "22",
+        "5": "14",
+        "6": "42",
+        "7": "22",
+        "8": "18",
+        "9": "31",
+        "10": "19",
+        "11": "23",
+        "12": "17",
+        "13": "22",
+        "14": "15",
+        "15": "19",
+        "16": "14",
+        "17": "19",
+        "18": "34",
+        "19": "11",
+        "20": "37",
+        "21": "20",
+        "22": "12",
+        "23": "21",
+        "24": "27",
+        "25": "28",
+        "26": "23",
+        "27": "9",
+        "28": "27",
+        "29": "36",
+        "30": "27",
+        "31": "21",
+        "32": "33",
+        "33": "25",
+        "34": "33",
+        "35": "27",
+        "36": "23"
+      },
+      "EZR": {
+        "numChapters": "10",
+        "1": "11",
+        "2": "70",
+        "3": "13",
+        "4": "24",
+        "5": "17",
+        "6": "22",
+        "7": "28",
+        "8": "36",
+        "9": "15",
+        "10": "44"
+      },
+      "NEH": {
+        "numChapters": "13",
+        "1": "11",
+        "2": "20",
+        "3": "32",
+        "4": "23",
+        "5": "19",
+        "6": "19",
+        "7": "73",
+        "8": "18",
+        "9": "38",
+        "10": "39",
+        "11": "36",
+        "12": "47",
+        "13": "31"
+      },
+      "EST": {
+        "numChapters": "10",
+        "1": "22",
+        "2": "23",
+        "3": "15",
+        "4": "17",
+        "5": "14",
+        "6": "14",
+        "7": "10",
+        "8": "17",
+        "9": "32",
+        "10": "3"
+      },
+      "JOB": {
+        "numChapters": "42",
+        "1": "22",
+        "2": "13",
+        "3": "26",
+        "4": "21",
+        "5": "27",
+        "6": "30",
+        "7": "21",
+        "8": "22",
+        "9": "35",
+        "10": "22",
+        "11": "20",
+        "12": "25",
+        "13": "28",
+        "14": "22",
+        "15": "35",
+        "16": "22",
+        "17": "16",
+        "18": "21",
+        "19": "29",
+        "20": "29",
+        "21": "34",
+        "22": "30",
+        "23": "17",
+        "24": "25",
+        "25": "6",
+        "26": "14",
+        "27": "23",
+        "28": "28",
+        "29": "25",
+        "30": "31",
+        "31": "40",
+        "32": "22",
+        "33": "33",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "30",
+        "40": "24",
+        "41": "34",
+        "42": "17"
+      },
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "12",
+        "3": "8",
+        "4": "8",
+        "5": "12",
+        "6": "10",
+        "7": "17",
+        "8": "9",
+        "9": "20",
+        "10": "18",
+        "11": "7",
+        "12": "8",
+        "13": "6",
+        "14": "7",
+        "15": "5",
+        "16": "11",
+        "17": "15",
+        "18": "50",
+        "19": "14",
+        "20": "9",
+        "21": "13",
+        "22": "31",
+        "23": "6",
+        "24": "10",
+        "25": "22",
+        "26": "12",
+        "27": "14",
+        "28": "9",
+        "29": "11",
+        "30": "12",
+        "31": "24",
+        "32": "11",
+        "33": "22",
+        "34": "22",
+        "35": "28",
+        "36": "12",
+        "37": "40",
+        "38": "22",
+        "39": "13",
+        "40": "17",
+        "41": "13",
+        "42": "11",
+        "43": "5",
+        "44": "26",
+        "45": "17",
+        "46": "11",
+        "47": "10",
+        "48": "14",
+        "49": "20",
+        "50": "23",
+        "51": "19",
+        "52": "9",
+        "53": "6",
+        "54": "7",
+        "55": "23",
+        "56": "13",
+        "57": "11",
+        "58": "11",
+        "59": "17",
+        "60": "12",
+        "61": "8",
+        "62": "12",
+        "63": "11",
+        "64": "10",
+        "65": "13",
+        "66": "20",
+        "67": "7",
+        "68": "35",
+        "69": "36",
+        "70": "5",
+        "71": "24",
+        "72": "20",
+        "73": "28",
+        "74": "23",
+        "75": "10",
+        "76": "12",
+        "77": "20",
+        "78": "72",
+        "79": "13",
+        "80": "19",
+        "81": "16",
+        "82": "8",
+        "83": "18",
+        "84": "12",
+        "85": "13",
+        "86": "17",
+        "87": "7",
+        "88": "18",
+        "89": "52",
+        "90": "17",
+        "91": "16",
+        "92": "15",
+        "93": "5",
+        "94": "23",
+        "95": "11",
+        "96": "13",
+        "97": "12",
+        "98": "9",
+        "99": "9",
+        "100": "5",
+        "101": "8",
+        "102": "28",
+        "103": "22",
+        "104": "35",
+        "105": "45",
+        "106": "48",
+        "107": "43",
+        "108": "13",
+        "109": "31",
+        "110": "7",
+        "111": "10",
+        "112": "10",
+        "113": "9",
+        "114": "8",
+        "115": "18",
+        "116": "19",
+        "117": "2",
+        "118": "29",
+        "119": "176",
+        "120": "7",
+        "121": "8",
+        "122": "9",
+        "123": "4",
+        "124": "8",
+        "125": "5",
+        "126": "6",
+        "127": "5",
+        "128": "6",
+        "129": "8",
+        "130": "8",
+        "131": "3",
+        "132": "18",
+        "133": "3",
+        "134": "3",
+        "135": "21",
+        "136": "26",
+        "137": "9",
+        "138": "8",
+        "139": "24",
+        "140": "13",
+        "141": "10",
+        "142": "7",
+        "143": "12",
+        "144": "15",
+        "145": "21",
+        "146": "10",
+        "147": "20",
+        "148": "14",
+        "149": "9",
+        "150": "6"
+      },
+      "PRO": {
+        "numChapters": "31",
+        "1": "33",
+        "2": "22",
+        "3": "35",
+        "4": "27",
+        "5": "23",
+        "6": "35",
+        "7": "27",
+        "8": "36",
+        "9": "18",
+        "10": "32",
+        "11": "31",
+        "12": "28",
+        "13": "25",
+        "14": "35",
+        "15": "33",
+        "16": "33",
+        "17": "28",
+        "18": "24",
+        "19": "29",
+        "20": "30",
+        "21": "31",
+        "22": "29",
+        "23": "35",
+        "24": "34",
+        "25": "28",
+        "26": "28",
+        "27": "27",
+        "28": "28",
+        "29": "27",
+        "30": "33",
+        "31": "31"
+      },
+      "ECC": {
+        "numChapters": "12",
+        "1": "18",
+        "2": "26",
+        "3": "22",
+        "4": "16",
+        "5": "20",
+        "6": "12",
+        "7": "29",
+        "8": "17",
+        "9": "18",
+        "10": "20",
+        "11": "10",
+        "12": "14"
+      },
+      "SNG": {
+        "numChapters": "8",
+        "1": "17",
+        "2": "17",
+        "3": "11",
+        "4": "16",
+        "5": "16",
+        "6": "13",
+        "7": "13",
+        "8": "14"
+      },
+      "ISA": {
+        "numChapters": "66",
+        "1": "31",
+        "2": "22",
+        "3": "26",
+        "4": "6",
+        "5": "30",
+        "6": "13",
+        "7": "25",
+        "8": "22",
+        "9": "21",
+        "10": "34",
+        "11": "16",
+        "12": "6",
+        "13": "22",
+        "14": "32",
+        "15": "9",
+        "16": "14",
+        "17": "14",
+        "18": "7",
+        "19": "25",
+        "20": "6",
+        "21": "17",
+        "22": "25",
+        "23": "18",
+        "24": "23",
+        "25": "12",
+        "26": "21",
+        "27": "13",
+        "28": "29",
+        "29": "24",
+        "30": "33",
+        "31": "9",
+        "32": "20",
+        "33": "24",
+        "34": "17",
+        "35": "10",
+        "36": "22",
+        "37": "38",
+        "38": "22",
+        "39": "8",
+        "40": "31",
+        "41": "29",
+        "42": "25",
+        "43": "28",
+        "44": "28",
+        "45": "25",
+        "46": "13",
+        "47": "15",
+        "48": "22",
+        "49": "26",
+        "50": "11",
+        "51": "23",
+        "52": "15",
+        "53": "12",
+        "54": "17",
+        "55": "13",
+        "56": "12",
+        "57": "21",
+        "58": "14",
+        "59": "21",
+        "60": "22",
+        "61": "11",
+        "62": "12",
+        "63": "19",
+        "64": "12",
+        "65": "25",
+        "66": "24"
+      },
+      "JER": {
+        "numChapters": "52",
+        "1": "19",
+        "2": "37",
+        "3": "25",
+        "4": "31",
+        "5": "31",
+        "6": "30",
+        "7": "34",
+        "8": "22",
+        "9": "26",
+        "10": "25",
+        "11": "23",
+        "12": "17",
+        "13": "27",
+        "14": "22",
+        "15": "21",
+        "16": "21",
+        "17": "27",
+        "18": "23",
+        "19": "15",
+        "20": "18",
+        "21": "14",
+        "22": "30",
+        "23": "40",
+        "24": "10",
+        "25": "38",
+        "26": "24",
+        "27": "22",
+        "28": "17",
+        "29": "32",
+        "30": "24",
+        "31": "40",
+        "32": "44",
+        "33": "26",
+        "34": "22",
+        "35": "19",
+        "36": "32",
+        "37": "21",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
+      },
+      "LAM": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "10",
+        "3": "27",
+        "4": "17",
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "49",
+        "21": "32",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
+      },
+      "DAN": {
+        "numChapters": "12",
+        "1": "21",
+        "2": "49",
+        "3": "30",
+        "4": "37",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "23",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "16",
+        "14": "9"
+      },
+      "JOL": {
+        "numChapters": "3",
+        "1": "20",
+        "2": "32",
+        "3": "21"
+      },
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "14",
+        "7": "17",
+        "8": "14",
+        "9": "15"
+      },
+      "OBA": {
+        "numChapters": "1",
+        "1": "21"
+      },
+      "JNA": {
+        "numChapters": "4",
+        "1": "17",
+        "2": "10",
+        "3": "10",
+        "4": "11"
+      },
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
+        "5": "15",
+        "6": "16",
+        "7": "20"
+      },
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
+      },
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "15",
+        "2": "23"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
+        "3": "17",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
+        "10": "42",
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "27",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
+      },
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "41",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "38",
+        "9": "50",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
+        "numChapters": "24",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
+        "10": "42",
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
+      },
+      "JHN": {
+        "numChapters": "21",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "71",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
+        "21": "25"
+      },
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "60",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "28",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "41",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
+        "3": "31",
+        "4": "25",
+        "5": "21",
+        "6": "23",
+        "7": "25",
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "23",
+        "15": "33",
+        "16": "27"
+      },
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
+        "3": "18",
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "13"
+      },
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
+      },
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
+      },
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
+      },
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
+      },
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
+      },
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
+        "2": "17",
+        "3": "18"
+      },
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
+        "2": "26",
+        "3": "17",
+        "4": "22"
+      },
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
+        "14": "20",
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
+      }
+    },
+    "omitted": {},
+    "combined": {},
+    "reordered": {}
+  },
+  "Synodal": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -54552,7 +55706,7 @@
         "11": "47",
         "12": "8",
         "13": "59",
-        "14": "57",
+        "14": "56",
         "15": "33",
         "16": "34",
         "17": "16",
@@ -54580,8 +55734,8 @@
         "9": "23",
         "10": "36",
         "11": "35",
-        "12": "16",
-        "13": "33",
+        "12": "15",
+        "13": "34",
         "14": "45",
         "15": "41",
         "16": "50",
@@ -54593,12 +55747,12 @@
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "19",
+        "25": "18",
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "40",
-        "30": "16",
+        "29": "39",
+        "30": "17",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -54649,8 +55803,8 @@
         "2": "24",
         "3": "17",
         "4": "24",
-        "5": "15",
-        "6": "27",
+        "5": "16",
+        "6": "26",
         "7": "26",
         "8": "35",
         "9": "27",
@@ -54668,7 +55822,7 @@
         "21": "45",
         "22": "34",
         "23": "16",
-        "24": "33"
+        "24": "36"
       },
       "JDG": {
         "numChapters": "21",
@@ -54722,11 +55876,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "42",
+        "20": "43",
         "21": "15",
         "22": "23",
-        "23": "29",
-        "24": "22",
+        "23": "28",
+        "24": "23",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -54860,7 +56014,7 @@
         "9": "31",
         "10": "19",
         "11": "23",
-        "12": "17",
+        "12": "16",
         "13": "22",
         "14": "15",
         "15": "19",
@@ -54886,6 +56040,10 @@
         "35": "27",
         "36": "23"
       },
+      "MAN": {
+        "numChapters": "1",
+        "1": "12"
+      },
       "EZR": {
         "numChapters": "10",
         "1": "11",
@@ -54915,6 +56073,54 @@
         "12": "47",
         "13": "31"
       },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "31",
+        "3": "24",
+        "4": "63",
+        "5": "70",
+        "6": "34",
+        "7": "15",
+        "8": "92",
+        "9": "55"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "22",
+        "2": "14",
+        "3": "17",
+        "4": "21",
+        "5": "22",
+        "6": "18",
+        "7": "17",
+        "8": "21",
+        "9": "6",
+        "10": "13",
+        "11": "18",
+        "12": "22",
+        "13": "18",
+        "14": "15"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "16",
+        "2": "28",
+        "3": "10",
+        "4": "15",
+        "5": "24",
+        "6": "21",
+        "7": "32",
+        "8": "36",
+        "9": "14",
+        "10": "23",
+        "11": "23",
+        "12": "20",
+        "13": "20",
+        "14": "19",
+        "15": "14",
+        "16": "25"
+      },
       "EST": {
         "numChapters": "10",
         "1": "22",
@@ -54968,170 +56174,171 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
+        "39": "35",
+        "40": "27",
+        "41": "26",
         "42": "17"
       },
       "PSA": {
-        "numChapters": "150",
+        "numChapters": "151",
         "1": "6",
         "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
-        "10": "18",
-        "11": "7",
-        "12": "8",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "12",
-        "31": "24",
-        "32": "11",
-        "33": "22",
-        "34": "22",
-        "35": "28",
-        "36": "12",
-        "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
-        "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "10",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
+        "3": "9",
+        "4": "9",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "7",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "27",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "14",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
         "62": "12",
         "63": "11",
-        "64": "10",
-        "65": "13",
-        "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
-        "78": "72",
-        "79": "13",
-        "80": "19",
-        "81": "16",
-        "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
-        "86": "17",
-        "87": "7",
-        "88": "18",
-        "89": "52",
-        "90": "17",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
         "91": "16",
-        "92": "15",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
         "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "28",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "13",
-        "109": "31",
-        "110": "7",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
         "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
         "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
+        "130": "3",
+        "131": "18",
+        "132": "3",
         "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "13",
-        "141": "10",
-        "142": "7",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "7",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
         "148": "14",
         "149": "9",
-        "150": "6"
+        "150": "6",
+        "151": "7"
       },
       "PRO": {
         "numChapters": "31",
         "1": "33",
         "2": "22",
         "3": "35",
-        "4": "27",
+        "4": "29",
         "5": "23",
         "6": "35",
         "7": "27",
@@ -55140,12 +56347,12 @@
         "10": "32",
         "11": "31",
         "12": "28",
-        "13": "25",
+        "13": "26",
         "14": "35",
         "15": "33",
         "16": "33",
         "17": "28",
-        "18": "24",
+        "18": "25",
         "19": "29",
         "20": "30",
         "21": "31",
@@ -55165,8 +56372,8 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "16",
-        "5": "20",
+        "4": "17",
+        "5": "19",
         "6": "12",
         "7": "29",
         "8": "17",
@@ -55177,20 +56384,96 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "17",
+        "1": "16",
         "2": "17",
         "3": "11",
         "4": "16",
         "5": "16",
-        "6": "13",
-        "7": "13",
+        "6": "12",
+        "7": "14",
         "8": "14"
       },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "24",
+        "3": "19",
+        "4": "20",
+        "5": "24",
+        "6": "27",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "27",
+        "12": "28",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "21"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "30",
+        "2": "18",
+        "3": "31",
+        "4": "35",
+        "5": "18",
+        "6": "37",
+        "7": "39",
+        "8": "22",
+        "9": "23",
+        "10": "34",
+        "11": "34",
+        "12": "18",
+        "13": "32",
+        "14": "27",
+        "15": "20",
+        "16": "31",
+        "17": "31",
+        "18": "33",
+        "19": "28",
+        "20": "31",
+        "21": "31",
+        "22": "31",
+        "23": "37",
+        "24": "37",
+        "25": "29",
+        "26": "27",
+        "27": "33",
+        "28": "30",
+        "29": "31",
+        "30": "27",
+        "31": "37",
+        "32": "25",
+        "33": "33",
+        "34": "26",
+        "35": "23",
+        "36": "29",
+        "37": "34",
+        "38": "39",
+        "39": "42",
+        "40": "32",
+        "41": "29",
+        "42": "26",
+        "43": "36",
+        "44": "27",
+        "45": "31",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "18",
+        "50": "31",
+        "51": "38"
+      },
       "ISA": {
         "numChapters": "66",
         "1": "31",
         "2": "22",
-        "3": "26",
+        "3": "25",
         "4": "6",
         "5": "30",
         "6": "13",
@@ -55318,6 +56601,18 @@
         "4": "22",
         "5": "22"
       },
+      "LJE": {
+        "numChapters": "1",
+        "1": "72"
+      },
+      "BAR": {
+        "numChapters": "5",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9"
+      },
       "EZE": {
         "numChapters": "48",
         "1": "28",
@@ -55370,11 +56665,11 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "12",
+        "numChapters": "14",
         "1": "21",
         "2": "49",
-        "3": "30",
-        "4": "37",
+        "3": "100",
+        "4": "34",
         "5": "31",
         "6": "28",
         "7": "28",
@@ -55382,7 +56677,9 @@
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13"
+        "12": "13",
+        "13": "64",
+        "14": "42"
       },
       "HOS": {
         "numChapters": "14",
@@ -55398,8 +56695,8 @@
         "10": "15",
         "11": "12",
         "12": "14",
-        "13": "16",
-        "14": "9"
+        "13": "15",
+        "14": "10"
       },
       "JOL": {
         "numChapters": "3",
@@ -55425,8 +56722,8 @@
       },
       "JNA": {
         "numChapters": "4",
-        "1": "17",
-        "2": "10",
+        "1": "16",
+        "2": "11",
         "3": "10",
         "4": "11"
       },
@@ -55487,6 +56784,72 @@
         "3": "18",
         "4": "6"
       },
+      "MA1": {
+        "numChapters": "16",
+        "1": "64",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "53",
+        "13": "53",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "33",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "45",
+        "13": "26",
+        "14": "46",
+        "15": "39"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "25",
+        "2": "24",
+        "3": "22",
+        "4": "16",
+        "5": "36",
+        "6": "37",
+        "7": "20"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "70",
+        "8": "63",
+        "9": "47",
+        "10": "60",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
       "MAT": {
         "numChapters": "28",
         "1": "25",
@@ -55608,7 +56971,7 @@
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "41",
+        "19": "40",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -55619,6 +56982,48 @@
         "27": "44",
         "28": "31"
       },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
+      },
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
+      },
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
+        "4": "21",
+        "5": "21"
+      },
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
+      },
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
+      },
       "ROM": {
         "numChapters": "16",
         "1": "32",
@@ -55634,9 +57039,9 @@
         "11": "36",
         "12": "21",
         "13": "14",
-        "14": "23",
+        "14": "26",
         "15": "33",
-        "16": "27"
+        "16": "24"
       },
       "CO1": {
         "numChapters": "16",
@@ -55669,7 +57074,7 @@
         "8": "24",
         "9": "15",
         "10": "18",
-        "11": "33",
+        "11": "32",
         "12": "21",
         "13": "13"
       },
@@ -55761,48 +57166,6 @@
         "12": "29",
         "13": "25"
       },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
-        "4": "19",
-        "5": "14"
-      },
-      "PE2": {
-        "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
-      },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
-      },
-      "JN3": {
-        "numChapters": "1",
-        "1": "15"
-      },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
-      },
       "REV": {
         "numChapters": "22",
         "1": "20",
@@ -55816,7 +57179,7 @@
         "9": "21",
         "10": "11",
         "11": "19",
-        "12": "18",
+        "12": "17",
         "13": "18",
         "14": "20",
         "15": "8",
@@ -55833,7 +57196,7 @@
     "combined": {},
     "reordered": {}
   },
-  "Original": {
+  "Syriac": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -56210,10 +57573,10 @@
         "25": "30"
       },
       "CH1": {
-        "numChapters": "29",
+        "numChapters": "28",
         "1": "54",
-        "2": "55",
-        "3": "24",
+        "2": "54",
+        "3": "23",
         "4": "43",
         "5": "41",
         "6": "66",
@@ -56234,30 +57597,28 @@
         "21": "30",
         "22": "19",
         "23": "32",
-        "24": "31",
+        "24": "26",
         "25": "31",
-        "26": "32",
-        "27": "34",
+        "26": "12",
         "28": "21",
         "29": "30"
       },
       "CH2": {
-        "numChapters": "36",
-        "1": "18",
-        "2": "17",
+        "numChapters": "35",
+        "1": "17",
+        "2": "18",
         "3": "17",
-        "4": "22",
+        "4": "18",
         "5": "14",
         "6": "42",
         "7": "22",
         "8": "18",
         "9": "31",
         "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "23",
-        "14": "14",
-        "15": "19",
+        "11": "16",
+        "13": "22",
+        "14": "15",
+        "15": "18",
         "16": "14",
         "17": "19",
         "18": "34",
@@ -56313,7 +57674,7 @@
         "numChapters": "10",
         "1": "22",
         "2": "23",
-        "3": "15",
+        "3": "14",
         "4": "17",
         "5": "14",
         "6": "14",
@@ -56328,7 +57689,7 @@
         "2": "13",
         "3": "26",
         "4": "21",
-        "5": "27",
+        "5": "26",
         "6": "30",
         "7": "21",
         "8": "22",
@@ -56361,7 +57722,7 @@
         "35": "16",
         "36": "33",
         "37": "24",
-        "38": "41",
+        "38": "14",
         "39": "30",
         "40": "32",
         "41": "26",
@@ -56428,7 +57789,7 @@
         "57": "12",
         "58": "12",
         "59": "18",
-        "60": "14",
+        "60": "13",
         "61": "9",
         "62": "13",
         "63": "12",
@@ -56440,7 +57801,7 @@
         "69": "37",
         "70": "6",
         "71": "24",
-        "72": "20",
+        "72": "19",
         "73": "28",
         "74": "23",
         "75": "11",
@@ -56581,7 +57942,7 @@
         "8": "14"
       },
       "ISA": {
-        "numChapters": "66",
+        "numChapters": "65",
         "1": "31",
         "2": "22",
         "3": "26",
@@ -56610,7 +57971,7 @@
         "26": "21",
         "27": "13",
         "28": "29",
-        "29": "24",
+        "29": "23",
         "30": "33",
         "31": "9",
         "32": "20",
@@ -56619,7 +57980,7 @@
         "35": "10",
         "36": "22",
         "37": "38",
-        "38": "22",
+        "38": "21",
         "39": "8",
         "40": "31",
         "41": "29",
@@ -56633,7 +57994,6 @@
         "49": "26",
         "50": "11",
         "51": "23",
-        "52": "15",
         "53": "12",
         "54": "17",
         "55": "13",
@@ -56757,7 +58117,7 @@
         "41": "26",
         "42": "20",
         "43": "27",
-        "44": "31",
+        "44": "36",
         "45": "25",
         "46": "24",
         "47": "23",
@@ -57002,7 +58362,7 @@
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "40",
+        "19": "41",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -57228,14 +58588,14 @@
         "2": "14",
         "3": "17",
         "4": "21",
-        "5": "23",
-        "6": "19",
+        "5": "22",
+        "6": "18",
         "7": "17",
         "8": "21",
         "9": "6",
-        "10": "14",
+        "10": "12",
         "11": "19",
-        "12": "22",
+        "12": "21",
         "13": "18",
         "14": "15"
       },
@@ -57255,19 +58615,9 @@
         "12": "20",
         "13": "20",
         "14": "19",
-        "15": "14",
+        "15": "13",
         "16": "25"
       },
-      "ESG": {
-        "numChapters": "7",
-        "1": "13",
-        "2": "12",
-        "3": "6",
-        "4": "18",
-        "5": "19",
-        "6": "16",
-        "7": "24"
-      },
       "WIS": {
         "numChapters": "19",
         "1": "16",
@@ -57276,7 +58626,7 @@
         "4": "20",
         "5": "23",
         "6": "25",
-        "7": "30",
+        "7": "39",
         "8": "21",
         "9": "18",
         "10": "21",
@@ -57286,12 +58636,12 @@
         "14": "31",
         "15": "19",
         "16": "29",
-        "17": "20",
+        "17": "21",
         "18": "25",
         "19": "22"
       },
       "SIR": {
-        "numChapters": "51",
+        "numChapters": "52",
         "1": "30",
         "2": "18",
         "3": "31",
@@ -57315,26 +58665,26 @@
         "21": "28",
         "22": "27",
         "23": "27",
-        "24": "34",
+        "24": "33",
         "25": "26",
         "26": "29",
         "27": "30",
         "28": "26",
         "29": "28",
-        "30": "25",
+        "30": "24",
         "31": "31",
         "32": "24",
         "33": "33",
-        "34": "26",
-        "35": "24",
-        "36": "27",
+        "34": "31",
+        "35": "26",
+        "36": "31",
         "37": "31",
-        "38": "34",
+        "38": "35",
         "39": "35",
         "40": "30",
-        "41": "27",
+        "41": "12",
         "42": "25",
-        "43": "33",
+        "43": "10",
         "44": "23",
         "45": "26",
         "46": "20",
@@ -57348,7 +58698,7 @@
         "numChapters": "5",
         "1": "22",
         "2": "35",
-        "3": "38",
+        "3": "35",
         "4": "37",
         "5": "9"
       },
@@ -57356,10 +58706,6 @@
         "numChapters": "1",
         "1": "72"
       },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "67"
-      },
       "SUS": {
         "numChapters": "1",
         "1": "64"
@@ -57382,7 +58728,7 @@
         "10": "89",
         "11": "74",
         "12": "53",
-        "13": "53",
+        "13": "54",
         "14": "49",
         "15": "41",
         "16": "24"
@@ -57394,13 +58740,13 @@
         "3": "40",
         "4": "50",
         "5": "27",
-        "6": "31",
+        "6": "42",
         "7": "42",
         "8": "36",
         "9": "29",
         "10": "38",
         "11": "38",
-        "12": "45",
+        "12": "46",
         "13": "26",
         "14": "46",
         "15": "39"
@@ -57423,13 +58769,13 @@
         "4": "26",
         "5": "38",
         "6": "35",
-        "7": "23",
-        "8": "29",
+        "7": "25",
+        "8": "28",
         "9": "32",
         "10": "21",
         "11": "27",
-        "12": "19",
-        "13": "27",
+        "12": "20",
+        "13": "26",
         "14": "20",
         "15": "32",
         "16": "25",
@@ -57439,183 +58785,83 @@
       "GES": {
         "numChapters": "9",
         "1": "55",
-        "2": "26",
-        "3": "24",
+        "2": "25",
+        "3": "23",
         "4": "63",
-        "5": "71",
+        "5": "70",
         "6": "33",
         "7": "15",
         "8": "92",
         "9": "55"
       },
       "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
+        "numChapters": "12",
         "3": "36",
         "4": "52",
         "5": "56",
         "6": "59",
-        "7": "140",
+        "7": "139",
         "8": "63",
         "9": "47",
-        "10": "59",
+        "10": "60",
         "11": "46",
         "12": "51",
         "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
+        "14": "48"
       },
       "MAN": {
         "numChapters": "1",
         "1": "15"
       },
       "PS2": {
-        "numChapters": "1",
-        "1": "7"
+        "numChapters": "5",
+        "1": "7",
+        "2": "6",
+        "3": "6",
+        "4": "20",
+        "5": "21"
       },
       "ODE": {
-        "numChapters": "14",
-        "1": "19",
+        "numChapters": "11",
+        "1": "21",
         "2": "43",
-        "3": "10",
-        "4": "19",
-        "5": "12",
-        "6": "8",
-        "7": "20",
-        "8": "37",
-        "9": "22",
-        "10": "9",
-        "11": "11",
-        "12": "15",
-        "13": "4",
-        "14": "46"
+        "3": "8",
+        "4": "10",
+        "5": "19",
+        "6": "19",
+        "7": "10",
+        "8": "56",
+        "9": "88",
+        "10": "20",
+        "11": "12"
       },
       "PSS": {
         "numChapters": "18",
         "1": "8",
-        "2": "37",
-        "3": "12",
-        "4": "25",
-        "5": "19",
-        "6": "6",
-        "7": "10",
-        "8": "34",
-        "9": "11",
-        "10": "8",
+        "2": "41",
+        "3": "16",
+        "4": "29",
+        "5": "22",
+        "6": "9",
+        "7": "9",
+        "8": "40",
+        "9": "20",
+        "10": "9",
         "11": "9",
-        "12": "6",
-        "13": "12",
-        "14": "10",
-        "15": "13",
+        "12": "8",
+        "13": "11",
+        "14": "6",
+        "15": "15",
         "16": "15",
-        "17": "46",
-        "18": "12"
-      },
-      "EZA": {
-        "numChapters": "12",
-        "1": "36",
-        "2": "52",
-        "3": "56",
-        "4": "59",
-        "5": "139",
-        "6": "63",
-        "7": "47",
-        "8": "60",
-        "9": "46",
-        "10": "51",
-        "11": "58",
-        "12": "48"
-      },
-      "JUB": {
-        "numChapters": "34",
-        "1": "26",
-        "2": "17",
-        "3": "19",
-        "4": "24",
-        "5": "36",
-        "6": "34",
-        "7": "37",
-        "8": "40",
-        "9": "27",
-        "10": "48",
-        "11": "39",
-        "12": "56",
-        "13": "34",
-        "14": "55",
-        "15": "20",
-        "16": "28",
-        "17": "30",
-        "18": "31",
-        "19": "59",
-        "20": "66",
-        "21": "30",
-        "22": "38",
-        "23": "59",
-        "24": "30",
-        "25": "50",
-        "26": "48",
-        "27": "37",
-        "28": "38",
-        "29": "27",
-        "30": "29",
-        "31": "31",
-        "32": "24",
-        "33": "30",
-        "34": "20"
-      },
-      "ENO": {
-        "numChapters": "42",
-        "1": "28",
-        "2": "42",
-        "3": "30",
-        "4": "88",
-        "5": "40",
-        "6": "42",
-        "7": "39",
-        "8": "46",
-        "9": "42",
-        "10": "16",
-        "11": "19",
-        "12": "40",
-        "13": "34",
-        "14": "35",
-        "15": "45",
-        "16": "41",
-        "17": "69",
-        "18": "42",
-        "19": "29",
-        "20": "53",
-        "21": "57",
-        "22": "14",
-        "23": "26",
-        "24": "16",
-        "25": "30",
-        "26": "37",
-        "27": "21",
-        "28": "34",
-        "29": "28",
-        "30": "23",
-        "31": "29",
-        "32": "82",
-        "33": "59",
-        "34": "49",
-        "35": "36",
-        "36": "30",
-        "37": "34",
-        "38": "36",
-        "39": "24",
-        "40": "40",
-        "41": "22",
-        "42": "16"
+        "17": "51",
+        "18": "7"
       }
     },
     "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "NRSV": {
+  "Vulgate": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -57667,8 +58913,8 @@
         "46": "34",
         "47": "31",
         "48": "22",
-        "49": "33",
-        "50": "26"
+        "49": "32",
+        "50": "25"
       },
       "EXO": {
         "numChapters": "40",
@@ -57711,7 +58957,7 @@
         "37": "29",
         "38": "31",
         "39": "43",
-        "40": "38"
+        "40": "36"
       },
       "LEV": {
         "numChapters": "27",
@@ -57740,7 +58986,7 @@
         "23": "44",
         "24": "23",
         "25": "55",
-        "26": "46",
+        "26": "45",
         "27": "34"
       },
       "NUM": {
@@ -57755,16 +59001,16 @@
         "8": "26",
         "9": "23",
         "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
+        "11": "34",
+        "12": "15",
+        "13": "34",
         "14": "45",
         "15": "41",
         "16": "50",
         "17": "13",
         "18": "32",
         "19": "22",
-        "20": "29",
+        "20": "30",
         "21": "35",
         "22": "41",
         "23": "30",
@@ -57773,8 +59019,8 @@
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "40",
-        "30": "16",
+        "29": "39",
+        "30": "17",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -57824,8 +59070,8 @@
         "1": "18",
         "2": "24",
         "3": "17",
-        "4": "24",
-        "5": "15",
+        "4": "25",
+        "5": "16",
         "6": "27",
         "7": "26",
         "8": "35",
@@ -57841,7 +59087,7 @@
         "18": "28",
         "19": "51",
         "20": "9",
-        "21": "45",
+        "21": "43",
         "22": "34",
         "23": "16",
         "24": "33"
@@ -57852,7 +59098,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "31",
+        "5": "32",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -57868,7 +59114,7 @@
         "18": "31",
         "19": "30",
         "20": "48",
-        "21": "25"
+        "21": "24"
       },
       "RUT": {
         "numChapters": "4",
@@ -57898,11 +59144,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "42",
+        "20": "43",
         "21": "15",
         "22": "23",
-        "23": "29",
-        "24": "22",
+        "23": "28",
+        "24": "23",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -57961,7 +59207,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "53"
+        "22": "54"
       },
       "KI2": {
         "numChapters": "25",
@@ -58003,7 +59249,7 @@
         "8": "40",
         "9": "44",
         "10": "14",
-        "11": "47",
+        "11": "46",
         "12": "40",
         "13": "14",
         "14": "17",
@@ -58012,7 +59258,7 @@
         "17": "27",
         "18": "17",
         "19": "19",
-        "20": "8",
+        "20": "7",
         "21": "30",
         "22": "19",
         "23": "32",
@@ -58079,7 +59325,7 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "32",
+        "3": "31",
         "4": "23",
         "5": "19",
         "6": "19",
@@ -58088,21 +59334,21 @@
         "9": "38",
         "10": "39",
         "11": "36",
-        "12": "47",
+        "12": "46",
         "13": "31"
       },
       "EST": {
         "numChapters": "10",
-        "1": "22",
+        "1": "32",
         "2": "23",
         "3": "15",
-        "4": "17",
-        "5": "14",
+        "4": "47",
+        "5": "28",
         "6": "14",
         "7": "10",
-        "8": "17",
+        "8": "41",
         "9": "32",
-        "10": "3"
+        "10": "13"
       },
       "JOB": {
         "numChapters": "42",
@@ -58121,7 +59367,7 @@
         "13": "28",
         "14": "22",
         "15": "35",
-        "16": "22",
+        "16": "23",
         "17": "16",
         "18": "21",
         "19": "29",
@@ -58139,164 +59385,164 @@
         "31": "40",
         "32": "22",
         "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
-        "42": "17"
-      },
-      "PSA": {
-        "numChapters": "150",
-        "1": "6",
-        "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
-        "10": "18",
-        "11": "7",
-        "12": "8",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "12",
-        "31": "24",
-        "32": "11",
-        "33": "22",
-        "34": "22",
-        "35": "28",
-        "36": "12",
-        "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
-        "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
+        "34": "37",
+        "35": "16",
+        "36": "33",
+        "37": "24",
+        "38": "41",
+        "39": "35",
+        "40": "28",
+        "41": "25",
+        "42": "16"
+      },
+      "PSA": {
+        "numChapters": "150",
+        "1": "6",
+        "2": "13",
+        "3": "9",
+        "4": "10",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "10",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "26",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "13",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
         "62": "12",
         "63": "11",
-        "64": "10",
-        "65": "13",
-        "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
-        "78": "72",
-        "79": "13",
-        "80": "19",
-        "81": "16",
-        "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
-        "86": "17",
-        "87": "7",
-        "88": "18",
-        "89": "52",
-        "90": "17",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
         "91": "16",
-        "92": "15",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
         "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "28",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "13",
-        "109": "31",
-        "110": "7",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
         "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "19",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
         "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
+        "130": "3",
+        "131": "18",
+        "132": "3",
         "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "13",
-        "141": "10",
-        "142": "7",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
         "147": "20",
         "148": "14",
         "149": "9",
@@ -58341,10 +59587,10 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "16",
-        "5": "20",
-        "6": "12",
-        "7": "29",
+        "4": "17",
+        "5": "19",
+        "6": "11",
+        "7": "30",
         "8": "17",
         "9": "18",
         "10": "20",
@@ -58353,12 +59599,12 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "17",
+        "1": "16",
         "2": "17",
         "3": "11",
         "4": "16",
-        "5": "16",
-        "6": "13",
+        "5": "17",
+        "6": "12",
         "7": "13",
         "8": "14"
       },
@@ -58469,7 +59715,7 @@
         "34": "22",
         "35": "19",
         "36": "32",
-        "37": "21",
+        "37": "20",
         "38": "28",
         "39": "18",
         "40": "16",
@@ -58497,7 +59743,7 @@
       "EZE": {
         "numChapters": "48",
         "1": "28",
-        "2": "10",
+        "2": "9",
         "3": "27",
         "4": "17",
         "5": "17",
@@ -58546,11 +59792,11 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "12",
+        "numChapters": "14",
         "1": "21",
         "2": "49",
-        "3": "30",
-        "4": "37",
+        "3": "100",
+        "4": "34",
         "5": "31",
         "6": "28",
         "7": "28",
@@ -58558,369 +59804,112 @@
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "11",
-        "2": "23",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "17",
-        "2": "10",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "15",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "22",
-        "6": "18",
-        "7": "16",
-        "8": "21",
-        "9": "6",
-        "10": "13",
-        "11": "18",
-        "12": "22",
-        "13": "17",
-        "14": "15"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
-      },
-      "ESG": {
-        "numChapters": "16",
-        "1": "22",
-        "2": "23",
-        "3": "15",
-        "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "13",
-        "11": "12",
-        "12": "6",
-        "13": "18",
-        "14": "19",
-        "15": "16",
-        "16": "24"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "24",
-        "3": "19",
-        "4": "20",
-        "5": "23",
-        "6": "25",
-        "7": "30",
-        "8": "21",
-        "9": "18",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "22"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
-        "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
-        "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
-        "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "31",
-        "35": "26",
-        "36": "31",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "22",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "37",
-        "4": "37",
-        "5": "9",
-        "6": "73"
-      },
-      "PAZ": {
-        "numChapters": "1",
-        "1": "68"
-      },
-      "SUS": {
-        "numChapters": "1",
-        "1": "64"
-      },
-      "BEL": {
-        "numChapters": "1",
-        "1": "42"
+        "12": "13",
+        "13": "65",
+        "14": "41"
       },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "24",
+        "3": "5",
+        "4": "19",
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "15",
+        "14": "10"
       },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
+      "JOL": {
+        "numChapters": "3",
+        "1": "20",
         "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
+        "3": "21"
       },
-      "GES": {
+      "AMO": {
         "numChapters": "9",
-        "1": "58",
-        "2": "30",
-        "3": "24",
-        "4": "63",
-        "5": "73",
-        "6": "34",
-        "7": "15",
-        "8": "96",
-        "9": "55"
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "15",
+        "7": "17",
+        "8": "14",
+        "9": "15"
       },
-      "MAN": {
+      "OBA": {
         "numChapters": "1",
-        "1": "15"
+        "1": "21"
       },
-      "PSS": {
-        "numChapters": "1",
-        "1": "7"
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
       },
-      "MA3": {
+      "MIC": {
         "numChapters": "7",
-        "1": "29",
-        "2": "33",
-        "3": "30",
-        "4": "21",
-        "5": "51",
-        "6": "41",
-        "7": "23"
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
+        "5": "14",
+        "6": "16",
+        "7": "20"
       },
-      "LES": {
-        "numChapters": "16",
-        "1": "40",
-        "2": "48",
-        "3": "36",
-        "4": "52",
-        "5": "56",
-        "6": "59",
-        "7": "140",
-        "8": "63",
-        "9": "47",
-        "10": "59",
-        "11": "46",
-        "12": "51",
-        "13": "58",
-        "14": "48",
-        "15": "63",
-        "16": "78"
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
       },
-      "MA4": {
-        "numChapters": "18",
-        "1": "35",
-        "2": "24",
-        "3": "21",
-        "4": "26",
-        "5": "38",
-        "6": "35",
-        "7": "23",
-        "8": "29",
-        "9": "32",
-        "10": "21",
-        "11": "27",
-        "12": "19",
-        "13": "27",
-        "14": "20",
-        "15": "32",
-        "16": "25",
-        "17": "24",
-        "18": "24"
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
+      },
+      "ZEP": {
+        "numChapters": "3",
+        "1": "18",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "14",
+        "2": "24"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
       },
       "MAT": {
         "numChapters": "28",
@@ -58940,7 +59929,7 @@
         "14": "36",
         "15": "39",
         "16": "28",
-        "17": "27",
+        "17": "26",
         "18": "35",
         "19": "30",
         "20": "34",
@@ -58958,12 +59947,12 @@
         "1": "45",
         "2": "28",
         "3": "35",
-        "4": "41",
+        "4": "40",
         "5": "43",
         "6": "56",
         "7": "37",
-        "8": "38",
-        "9": "50",
+        "8": "39",
+        "9": "49",
         "10": "52",
         "11": "33",
         "12": "44",
@@ -59006,7 +59995,7 @@
         "3": "36",
         "4": "54",
         "5": "47",
-        "6": "71",
+        "6": "72",
         "7": "53",
         "8": "59",
         "9": "41",
@@ -59031,19 +60020,19 @@
         "4": "37",
         "5": "42",
         "6": "15",
-        "7": "60",
+        "7": "59",
         "8": "40",
         "9": "43",
         "10": "48",
         "11": "30",
         "12": "25",
         "13": "52",
-        "14": "28",
+        "14": "27",
         "15": "41",
         "16": "40",
         "17": "34",
         "18": "28",
-        "19": "41",
+        "19": "40",
         "20": "38",
         "21": "40",
         "22": "30",
@@ -59106,7 +60095,7 @@
         "10": "18",
         "11": "33",
         "12": "21",
-        "13": "14"
+        "13": "13"
       },
       "GAL": {
         "numChapters": "6",
@@ -59262,13 +60251,317 @@
         "20": "15",
         "21": "27",
         "22": "21"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "25",
+        "2": "23",
+        "3": "25",
+        "4": "23",
+        "5": "28",
+        "6": "22",
+        "7": "20",
+        "8": "24",
+        "9": "12",
+        "10": "13",
+        "11": "21",
+        "12": "22",
+        "13": "23",
+        "14": "17"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "12",
+        "2": "18",
+        "3": "15",
+        "4": "17",
+        "5": "29",
+        "6": "21",
+        "7": "25",
+        "8": "34",
+        "9": "19",
+        "10": "20",
+        "11": "21",
+        "12": "20",
+        "13": "31",
+        "14": "18",
+        "15": "15",
+        "16": "31"
+      },
+      "ESG": {
+        "numChapters": "10",
+        "1": "39",
+        "2": "23",
+        "3": "22",
+        "4": "47",
+        "5": "28",
+        "6": "14",
+        "7": "10",
+        "8": "39",
+        "9": "32",
+        "10": "13"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "25",
+        "3": "19",
+        "4": "20",
+        "5": "24",
+        "6": "27",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "27",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "20"
+      },
+      "SIR": {
+        "numChapters": "52",
+        "1": "40",
+        "2": "23",
+        "3": "34",
+        "4": "36",
+        "5": "18",
+        "6": "37",
+        "7": "40",
+        "8": "22",
+        "9": "25",
+        "10": "34",
+        "11": "36",
+        "12": "19",
+        "13": "32",
+        "14": "27",
+        "15": "22",
+        "16": "31",
+        "17": "31",
+        "18": "33",
+        "19": "28",
+        "20": "33",
+        "21": "31",
+        "22": "33",
+        "23": "38",
+        "24": "47",
+        "25": "36",
+        "26": "28",
+        "27": "33",
+        "28": "30",
+        "29": "35",
+        "30": "27",
+        "31": "42",
+        "32": "28",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "28",
+        "37": "34",
+        "38": "39",
+        "39": "41",
+        "40": "32",
+        "41": "28",
+        "42": "26",
+        "43": "37",
+        "44": "27",
+        "45": "31",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "19",
+        "50": "31",
+        "51": "38",
+        "52": "13"
+      },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9",
+        "6": "72"
+      },
+      "LJE": {
+        "numChapters": "1",
+        "1": "72"
+      },
+      "PAZ": {
+        "numChapters": "1",
+        "1": "67"
+      },
+      "SUS": {
+        "numChapters": "1",
+        "1": "64"
+      },
+      "BEL": {
+        "numChapters": "1",
+        "1": "42"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "67",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "54",
+        "13": "54",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "33",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "46",
+        "13": "26",
+        "14": "46",
+        "15": "40"
+      },
+      "MA3": {
+        "numChapters": "7",
+        "1": "29",
+        "2": "33",
+        "3": "30",
+        "4": "21",
+        "5": "51",
+        "6": "41",
+        "7": "23"
+      },
+      "MA4": {
+        "numChapters": "18",
+        "1": "35",
+        "2": "24",
+        "3": "21",
+        "4": "26",
+        "5": "38",
+        "6": "35",
+        "7": "23",
+        "8": "29",
+        "9": "32",
+        "10": "21",
+        "11": "27",
+        "12": "19",
+        "13": "27",
+        "14": "20",
+        "15": "32",
+        "16": "25",
+        "17": "24",
+        "18": "24"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "31",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "97",
+        "9": "56"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "55",
+        "6": "59",
+        "7": "139",
+        "8": "63",
+        "9": "47",
+        "10": "60",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "47",
+        "15": "63",
+        "16": "78"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "PS2": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "EZ5": {
+        "numChapters": "2",
+        "1": "40",
+        "2": "48"
+      },
+      "EZA": {
+        "numChapters": "12",
+        "1": "36",
+        "2": "52",
+        "3": "55",
+        "4": "59",
+        "5": "139",
+        "6": "63",
+        "7": "47",
+        "8": "60",
+        "9": "46",
+        "10": "51",
+        "11": "58",
+        "12": "47"
+      },
+      "EZ6": {
+        "numChapters": "2",
+        "1": "63",
+        "12": "78"
+      },
+      "DNG": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "97",
+        "4": "37",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "64",
+        "14": "42"
+      },
+      "LAO": {
+        "numChapters": "1",
+        "1": "20"
       }
     },
     "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "Cebuano_BUGV": {
+  "Vulgate1": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -59276,7 +60569,7 @@
         "2": "25",
         "3": "24",
         "4": "26",
-        "5": "32",
+        "5": "31",
         "6": "22",
         "7": "24",
         "8": "22",
@@ -59320,8 +60613,8 @@
         "46": "34",
         "47": "31",
         "48": "22",
-        "49": "33",
-        "50": "26"
+        "49": "32",
+        "50": "25"
       },
       "EXO": {
         "numChapters": "40",
@@ -59364,7 +60657,7 @@
         "37": "29",
         "38": "31",
         "39": "43",
-        "40": "38"
+        "40": "36"
       },
       "LEV": {
         "numChapters": "27",
@@ -59393,7 +60686,7 @@
         "23": "44",
         "24": "23",
         "25": "55",
-        "26": "46",
+        "26": "45",
         "27": "34"
       },
       "NUM": {
@@ -59408,16 +60701,16 @@
         "8": "26",
         "9": "23",
         "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
+        "11": "34",
+        "12": "15",
+        "13": "34",
         "14": "45",
         "15": "41",
         "16": "50",
         "17": "13",
         "18": "32",
         "19": "22",
-        "20": "29",
+        "20": "30",
         "21": "35",
         "22": "41",
         "23": "30",
@@ -59426,8 +60719,8 @@
         "26": "65",
         "27": "23",
         "28": "31",
-        "29": "40",
-        "30": "16",
+        "29": "39",
+        "30": "17",
         "31": "54",
         "32": "42",
         "33": "56",
@@ -59477,8 +60770,8 @@
         "1": "18",
         "2": "24",
         "3": "17",
-        "4": "24",
-        "5": "15",
+        "4": "25",
+        "5": "16",
         "6": "27",
         "7": "26",
         "8": "35",
@@ -59494,7 +60787,7 @@
         "18": "28",
         "19": "51",
         "20": "9",
-        "21": "45",
+        "21": "43",
         "22": "34",
         "23": "16",
         "24": "33"
@@ -59505,7 +60798,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "31",
+        "5": "32",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -59521,7 +60814,7 @@
         "18": "31",
         "19": "30",
         "20": "48",
-        "21": "25"
+        "21": "24"
       },
       "RUT": {
         "numChapters": "4",
@@ -59551,11 +60844,11 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "42",
+        "20": "43",
         "21": "15",
         "22": "23",
-        "23": "29",
-        "24": "22",
+        "23": "28",
+        "24": "23",
         "25": "44",
         "26": "25",
         "27": "12",
@@ -59614,7 +60907,7 @@
         "19": "21",
         "20": "43",
         "21": "29",
-        "22": "53"
+        "22": "54"
       },
       "KI2": {
         "numChapters": "25",
@@ -59656,7 +60949,7 @@
         "8": "40",
         "9": "44",
         "10": "14",
-        "11": "47",
+        "11": "46",
         "12": "40",
         "13": "14",
         "14": "17",
@@ -59665,7 +60958,7 @@
         "17": "27",
         "18": "17",
         "19": "19",
-        "20": "8",
+        "20": "7",
         "21": "30",
         "22": "19",
         "23": "32",
@@ -59732,7 +61025,7 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "32",
+        "3": "31",
         "4": "23",
         "5": "19",
         "6": "19",
@@ -59740,12 +61033,12 @@
         "8": "18",
         "9": "38",
         "10": "39",
-        "11": "35",
-        "12": "47",
+        "11": "36",
+        "12": "46",
         "13": "31"
       },
       "EST": {
-        "numChapters": "10",
+        "numChapters": "16",
         "1": "22",
         "2": "23",
         "3": "15",
@@ -59755,7 +61048,13 @@
         "7": "10",
         "8": "17",
         "9": "32",
-        "10": "3"
+        "10": "13",
+        "11": "12",
+        "12": "6",
+        "13": "18",
+        "14": "19",
+        "15": "19",
+        "16": "24"
       },
       "JOB": {
         "numChapters": "42",
@@ -59774,7 +61073,7 @@
         "13": "28",
         "14": "22",
         "15": "35",
-        "16": "22",
+        "16": "23",
         "17": "16",
         "18": "21",
         "19": "29",
@@ -59797,160 +61096,160 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "30",
-        "40": "24",
-        "41": "34",
-        "42": "17"
+        "39": "35",
+        "40": "28",
+        "41": "25",
+        "42": "16"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
-        "2": "12",
-        "3": "8",
-        "4": "8",
-        "5": "12",
-        "6": "10",
-        "7": "17",
-        "8": "9",
-        "9": "20",
-        "10": "18",
-        "11": "7",
-        "12": "8",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "50",
-        "19": "14",
-        "20": "9",
-        "21": "13",
-        "22": "31",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "12",
-        "31": "24",
-        "32": "11",
-        "33": "22",
-        "34": "22",
-        "35": "28",
-        "36": "12",
-        "37": "40",
-        "38": "22",
-        "39": "13",
-        "40": "17",
-        "41": "13",
-        "42": "11",
-        "43": "5",
-        "44": "26",
-        "45": "17",
-        "46": "11",
-        "47": "9",
-        "48": "14",
-        "49": "20",
-        "50": "23",
-        "51": "19",
-        "52": "9",
-        "53": "6",
-        "54": "7",
-        "55": "23",
-        "56": "13",
-        "57": "11",
-        "58": "11",
-        "59": "17",
-        "60": "12",
-        "61": "8",
+        "2": "13",
+        "3": "9",
+        "4": "10",
+        "5": "13",
+        "6": "11",
+        "7": "18",
+        "8": "10",
+        "9": "39",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "11",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "6",
+        "43": "26",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "13",
+        "56": "12",
+        "57": "12",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
         "62": "12",
         "63": "11",
-        "64": "10",
-        "65": "13",
-        "66": "20",
-        "67": "7",
-        "68": "35",
-        "69": "36",
-        "70": "5",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "10",
-        "76": "12",
-        "77": "20",
-        "78": "72",
-        "79": "13",
-        "80": "19",
-        "81": "16",
-        "82": "8",
-        "83": "18",
-        "84": "12",
-        "85": "13",
-        "86": "17",
-        "87": "7",
-        "88": "18",
-        "89": "52",
-        "90": "17",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
         "91": "16",
-        "92": "15",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
         "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "28",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "13",
-        "109": "31",
-        "110": "7",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
         "111": "10",
-        "112": "10",
-        "113": "10",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "3",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
-        "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
-        "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "13",
-        "141": "10",
-        "142": "7",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
-        "147": "20",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "10",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "7",
+        "126": "5",
+        "127": "6",
+        "128": "8",
+        "129": "8",
+        "130": "3",
+        "131": "18",
+        "132": "3",
+        "133": "3",
+        "134": "21",
+        "135": "27",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
+        "147": "9",
         "148": "14",
         "149": "9",
         "150": "6"
@@ -59964,7 +61263,7 @@
         "5": "23",
         "6": "35",
         "7": "27",
-        "8": "37",
+        "8": "36",
         "9": "18",
         "10": "32",
         "11": "31",
@@ -59994,10 +61293,10 @@
         "1": "18",
         "2": "26",
         "3": "22",
-        "4": "16",
-        "5": "20",
-        "6": "12",
-        "7": "29",
+        "4": "17",
+        "5": "19",
+        "6": "11",
+        "7": "30",
         "8": "17",
         "9": "18",
         "10": "20",
@@ -60006,12 +61305,12 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "17",
+        "1": "16",
         "2": "17",
         "3": "11",
         "4": "16",
-        "5": "16",
-        "6": "13",
+        "5": "17",
+        "6": "12",
         "7": "13",
         "8": "14"
       },
@@ -60061,7 +61360,7 @@
         "42": "25",
         "43": "28",
         "44": "28",
-        "45": "25",
+        "45": "26",
         "46": "13",
         "47": "15",
         "48": "22",
@@ -60122,1654 +61421,592 @@
         "34": "22",
         "35": "19",
         "36": "32",
-        "37": "21",
-        "38": "28",
-        "39": "18",
-        "40": "16",
-        "41": "18",
-        "42": "22",
-        "43": "13",
-        "44": "30",
-        "45": "5",
-        "46": "28",
-        "47": "7",
-        "48": "47",
-        "49": "39",
-        "50": "46",
-        "51": "64",
-        "52": "34"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "8",
-        "18": "32",
-        "19": "14",
-        "20": "49",
-        "21": "32",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "17",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
-      },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "30",
-        "4": "37",
-        "5": "31",
-        "6": "28",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "11",
-        "2": "23",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "12",
-        "12": "14",
-        "13": "16",
-        "14": "9"
-      },
-      "JOL": {
-        "numChapters": "3",
-        "1": "20",
-        "2": "32",
-        "3": "21"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "17",
-        "2": "10",
-        "3": "10",
-        "4": "11"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "13",
-        "5": "15",
-        "6": "16",
-        "7": "20"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "15",
-        "2": "13",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "21",
-        "2": "13",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "4",
-        "1": "14",
-        "2": "17",
-        "3": "18",
-        "4": "6"
-      },
-      "MAT": {
-        "numChapters": "28",
-        "1": "25",
-        "2": "23",
-        "3": "17",
-        "4": "25",
-        "5": "48",
-        "6": "34",
-        "7": "29",
-        "8": "34",
-        "9": "38",
-        "10": "42",
-        "11": "30",
-        "12": "50",
-        "13": "58",
-        "14": "36",
-        "15": "39",
-        "16": "28",
-        "17": "27",
-        "18": "35",
-        "19": "30",
-        "20": "34",
-        "21": "46",
-        "22": "46",
-        "23": "39",
-        "24": "51",
-        "25": "46",
-        "26": "75",
-        "27": "66",
-        "28": "20"
-      },
-      "MRK": {
-        "numChapters": "16",
-        "1": "45",
-        "2": "28",
-        "3": "35",
-        "4": "41",
-        "5": "43",
-        "6": "56",
-        "7": "37",
-        "8": "38",
-        "9": "50",
-        "10": "52",
-        "11": "33",
-        "12": "44",
-        "13": "37",
-        "14": "72",
-        "15": "47",
-        "16": "20"
-      },
-      "LUK": {
-        "numChapters": "24",
-        "1": "80",
-        "2": "52",
-        "3": "38",
-        "4": "44",
-        "5": "39",
-        "6": "49",
-        "7": "50",
-        "8": "56",
-        "9": "62",
-        "10": "42",
-        "11": "54",
-        "12": "59",
-        "13": "35",
-        "14": "35",
-        "15": "32",
-        "16": "31",
-        "17": "37",
-        "18": "43",
-        "19": "48",
-        "20": "47",
-        "21": "38",
-        "22": "71",
-        "23": "56",
-        "24": "53"
-      },
-      "JHN": {
-        "numChapters": "21",
-        "1": "51",
-        "2": "25",
-        "3": "36",
-        "4": "54",
-        "5": "47",
-        "6": "71",
-        "7": "53",
-        "8": "59",
-        "9": "41",
-        "10": "42",
-        "11": "57",
-        "12": "50",
-        "13": "38",
-        "14": "31",
-        "15": "27",
-        "16": "33",
-        "17": "26",
-        "18": "40",
-        "19": "42",
-        "20": "31",
-        "21": "25"
-      },
-      "ACT": {
-        "numChapters": "28",
-        "1": "26",
-        "2": "47",
-        "3": "26",
-        "4": "37",
-        "5": "42",
-        "6": "15",
-        "7": "60",
-        "8": "40",
-        "9": "43",
-        "10": "48",
-        "11": "30",
-        "12": "25",
-        "13": "52",
-        "14": "28",
-        "15": "41",
-        "16": "40",
-        "17": "34",
-        "18": "28",
-        "19": "41",
-        "20": "38",
-        "21": "40",
-        "22": "30",
-        "23": "35",
-        "24": "27",
-        "25": "27",
-        "26": "32",
-        "27": "44",
-        "28": "31"
-      },
-      "ROM": {
-        "numChapters": "16",
-        "1": "32",
-        "2": "29",
-        "3": "31",
-        "4": "25",
-        "5": "21",
-        "6": "23",
-        "7": "25",
-        "8": "39",
-        "9": "33",
-        "10": "21",
-        "11": "36",
-        "12": "21",
-        "13": "14",
-        "14": "23",
-        "15": "33",
-        "16": "27"
-      },
-      "CO1": {
-        "numChapters": "16",
-        "1": "31",
-        "2": "16",
-        "3": "23",
-        "4": "21",
-        "5": "13",
-        "6": "20",
-        "7": "40",
-        "8": "13",
-        "9": "27",
-        "10": "33",
-        "11": "34",
-        "12": "31",
-        "13": "13",
-        "14": "40",
-        "15": "58",
-        "16": "24"
-      },
-      "CO2": {
-        "numChapters": "13",
-        "1": "24",
-        "2": "17",
-        "3": "18",
-        "4": "18",
-        "5": "21",
-        "6": "18",
-        "7": "16",
-        "8": "24",
-        "9": "15",
-        "10": "18",
-        "11": "33",
-        "12": "21",
-        "13": "14"
-      },
-      "GAL": {
-        "numChapters": "6",
-        "1": "24",
-        "2": "21",
-        "3": "29",
-        "4": "31",
-        "5": "26",
-        "6": "18"
-      },
-      "EPH": {
-        "numChapters": "6",
-        "1": "23",
-        "2": "22",
-        "3": "21",
-        "4": "32",
-        "5": "33",
-        "6": "24"
-      },
-      "PHP": {
-        "numChapters": "4",
-        "1": "30",
-        "2": "30",
-        "3": "21",
-        "4": "23"
-      },
-      "COL": {
-        "numChapters": "4",
-        "1": "29",
-        "2": "23",
-        "3": "25",
-        "4": "18"
-      },
-      "TH1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "20",
-        "3": "13",
-        "4": "18",
-        "5": "28"
-      },
-      "TH2": {
-        "numChapters": "3",
-        "1": "12",
-        "2": "17",
-        "3": "18"
-      },
-      "TI1": {
-        "numChapters": "6",
-        "1": "20",
-        "2": "15",
-        "3": "16",
-        "4": "16",
-        "5": "25",
-        "6": "21"
-      },
-      "TI2": {
-        "numChapters": "4",
-        "1": "18",
-        "2": "26",
-        "3": "17",
-        "4": "22"
-      },
-      "TIT": {
-        "numChapters": "3",
-        "1": "16",
-        "2": "15",
-        "3": "15"
-      },
-      "PHM": {
-        "numChapters": "1",
-        "1": "25"
-      },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
+        "37": "20",
+        "38": "28",
+        "39": "18",
+        "40": "16",
+        "41": "18",
+        "42": "22",
+        "43": "13",
+        "44": "30",
+        "45": "5",
+        "46": "28",
+        "47": "7",
+        "48": "47",
+        "49": "39",
+        "50": "46",
+        "51": "64",
+        "52": "34"
       },
-      "JAM": {
+      "LAM": {
         "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
+        "1": "22",
+        "2": "22",
+        "3": "66",
+        "4": "22",
+        "5": "22"
+      },
+      "EZE": {
+        "numChapters": "48",
+        "1": "28",
+        "2": "9",
+        "3": "27",
         "4": "17",
-        "5": "20"
+        "5": "17",
+        "6": "14",
+        "7": "27",
+        "8": "18",
+        "9": "11",
+        "10": "22",
+        "11": "25",
+        "12": "28",
+        "13": "23",
+        "14": "23",
+        "15": "8",
+        "16": "63",
+        "17": "24",
+        "18": "32",
+        "19": "14",
+        "20": "49",
+        "21": "32",
+        "22": "31",
+        "23": "49",
+        "24": "27",
+        "25": "17",
+        "26": "21",
+        "27": "36",
+        "28": "26",
+        "29": "21",
+        "30": "26",
+        "31": "18",
+        "32": "32",
+        "33": "33",
+        "34": "31",
+        "35": "15",
+        "36": "38",
+        "37": "28",
+        "38": "23",
+        "39": "29",
+        "40": "49",
+        "41": "26",
+        "42": "20",
+        "43": "27",
+        "44": "31",
+        "45": "25",
+        "46": "24",
+        "47": "23",
+        "48": "35"
       },
-      "PE1": {
-        "numChapters": "5",
-        "1": "25",
-        "2": "25",
-        "3": "22",
+      "DAN": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "49",
+        "3": "100",
+        "4": "34",
+        "5": "31",
+        "6": "28",
+        "7": "28",
+        "8": "27",
+        "9": "27",
+        "10": "21",
+        "11": "45",
+        "12": "13",
+        "13": "65",
+        "14": "42"
+      },
+      "HOS": {
+        "numChapters": "14",
+        "1": "11",
+        "2": "24",
+        "3": "5",
         "4": "19",
-        "5": "14"
+        "5": "15",
+        "6": "11",
+        "7": "16",
+        "8": "14",
+        "9": "17",
+        "10": "15",
+        "11": "12",
+        "12": "14",
+        "13": "15",
+        "14": "10"
       },
-      "PE2": {
+      "JOL": {
         "numChapters": "3",
-        "1": "21",
-        "2": "22",
-        "3": "18"
-      },
-      "JN1": {
-        "numChapters": "5",
-        "1": "10",
-        "2": "29",
-        "3": "24",
-        "4": "21",
-        "5": "21"
+        "1": "20",
+        "2": "32",
+        "3": "21"
       },
-      "JN2": {
-        "numChapters": "1",
-        "1": "13"
+      "AMO": {
+        "numChapters": "9",
+        "1": "15",
+        "2": "16",
+        "3": "15",
+        "4": "13",
+        "5": "27",
+        "6": "15",
+        "7": "17",
+        "8": "14",
+        "9": "15"
       },
-      "JN3": {
+      "OBA": {
         "numChapters": "1",
-        "1": "14"
+        "1": "21"
       },
-      "JDE": {
-        "numChapters": "1",
-        "1": "25"
+      "JNA": {
+        "numChapters": "4",
+        "1": "16",
+        "2": "11",
+        "3": "10",
+        "4": "11"
       },
-      "REV": {
-        "numChapters": "22",
-        "1": "20",
-        "2": "29",
-        "3": "22",
-        "4": "11",
+      "MIC": {
+        "numChapters": "7",
+        "1": "16",
+        "2": "13",
+        "3": "12",
+        "4": "13",
         "5": "14",
-        "6": "17",
-        "7": "17",
-        "8": "13",
-        "9": "21",
-        "10": "11",
-        "11": "19",
-        "12": "17",
-        "13": "18",
-        "14": "20",
-        "15": "8",
-        "16": "21",
-        "17": "18",
-        "18": "24",
-        "19": "21",
-        "20": "15",
-        "21": "27",
-        "22": "21"
-      }
-    },
-    "omitted": {
-      "LEV": [
-        [
-          "16",
-          "23"
-        ],
-        [
-          "19",
-          "4"
-        ]
-      ],
-      "NUM": [
-        [
-          "18",
-          "21"
-        ],
-        [
-          "26",
-          "58"
-        ]
-      ],
-      "KI2": [
-        [
-          "19",
-          "13"
-        ]
-      ],
-      "JER": [
-        [
-          "31",
-          "39"
-        ],
-        [
-          "50",
-          "3"
-        ],
-        [
-          "50",
-          "4"
-        ],
-        [
-          "50",
-          "5"
-        ],
-        [
-          "50",
-          "6"
-        ],
-        [
-          "50",
-          "7"
-        ],
-        [
-          "50",
-          "8"
-        ],
-        [
-          "50",
-          "9"
-        ],
-        [
-          "50",
-          "10"
-        ],
-        [
-          "50",
-          "11"
-        ],
-        [
-          "50",
-          "12"
-        ],
-        [
-          "50",
-          "13"
-        ],
-        [
-          "50",
-          "14"
-        ],
-        [
-          "50",
-          "15"
-        ],
-        [
-          "50",
-          "16"
-        ],
-        [
-          "50",
-          "17"
-        ],
-        [
-          "50",
-          "18"
-        ],
-        [
-          "50",
-          "19"
-        ],
-        [
-          "50",
-          "20"
-        ],
-        [
-          "50",
-          "21"
-        ],
-        [
-          "50",
-          "22"
-        ],
-        [
-          "50",
-          "23"
-        ],
-        [
-          "50",
-          "24"
-        ],
-        [
-          "50",
-          "25"
-        ],
-        [
-          "50",
-          "26"
-        ],
-        [
-          "50",
-          "27"
-        ],
-        [
-          "50",
-          "28"
-        ]
-      ],
-      "EZE": [
-        [
-          "34",
-          "24"
-        ]
-      ],
-      "AMO": [
-        [
-          "7",
-          "4"
-        ]
-      ]
-    },
-    "combined": {},
-    "reordered": {}
-  },
-  "Rahlfs": {
-    "CV": {
-      "GEN": {
-        "numChapters": "50",
-        "1": "31",
-        "2": "25",
-        "3": "24",
-        "4": "26",
-        "5": "32",
-        "6": "22",
-        "7": "24",
-        "8": "22",
-        "9": "29",
-        "10": "32",
-        "11": "32",
-        "12": "20",
-        "13": "18",
-        "14": "24",
-        "15": "21",
-        "16": "16",
-        "17": "27",
-        "18": "33",
-        "19": "38",
-        "20": "18",
-        "21": "34",
-        "22": "24",
-        "23": "20",
-        "24": "67",
-        "25": "34",
-        "26": "35",
-        "27": "46",
-        "28": "22",
-        "29": "35",
-        "30": "43",
-        "31": "54",
-        "32": "33",
-        "33": "20",
-        "34": "31",
-        "35": "29",
-        "36": "43",
-        "37": "36",
-        "38": "30",
-        "39": "23",
-        "40": "23",
-        "41": "57",
-        "42": "38",
-        "43": "34",
-        "44": "34",
-        "45": "28",
-        "46": "34",
-        "47": "31",
-        "48": "22",
-        "49": "33",
-        "50": "26"
-      },
-      "EXO": {
-        "numChapters": "40",
-        "1": "22",
-        "2": "25",
-        "3": "22",
-        "4": "31",
-        "5": "23",
-        "6": "30",
-        "7": "29",
-        "8": "28",
-        "9": "35",
-        "10": "29",
-        "11": "10",
-        "12": "51",
-        "13": "22",
-        "14": "31",
-        "15": "27",
-        "16": "36",
-        "17": "16",
-        "18": "27",
-        "19": "25",
-        "20": "26",
-        "21": "37",
-        "22": "30",
-        "23": "33",
-        "24": "18",
-        "25": "40",
-        "26": "37",
-        "27": "21",
-        "28": "43",
-        "29": "46",
-        "30": "38",
-        "31": "18",
-        "32": "35",
-        "33": "23",
-        "34": "35",
-        "35": "35",
-        "36": "38",
-        "37": "21",
-        "38": "27",
-        "39": "23",
-        "40": "38"
-      },
-      "LEV": {
-        "numChapters": "27",
-        "1": "17",
-        "2": "16",
-        "3": "17",
-        "4": "35",
-        "5": "26",
-        "6": "23",
-        "7": "38",
-        "8": "36",
-        "9": "24",
-        "10": "20",
-        "11": "47",
-        "12": "8",
-        "13": "59",
-        "14": "57",
-        "15": "33",
-        "16": "34",
-        "17": "16",
-        "18": "30",
-        "19": "37",
-        "20": "27",
-        "21": "24",
-        "22": "33",
-        "23": "44",
-        "24": "23",
-        "25": "55",
-        "26": "46",
-        "27": "34"
+        "6": "16",
+        "7": "20"
       },
-      "NUM": {
-        "numChapters": "36",
-        "1": "54",
-        "2": "34",
-        "3": "51",
-        "4": "49",
-        "5": "31",
-        "6": "26",
-        "7": "89",
-        "8": "26",
-        "9": "23",
-        "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
-        "14": "45",
-        "15": "41",
-        "16": "35",
-        "17": "28",
-        "18": "32",
-        "19": "22",
-        "20": "29",
-        "21": "35",
-        "22": "41",
-        "23": "30",
-        "24": "25",
-        "25": "18",
-        "26": "65",
-        "27": "23",
-        "28": "31",
-        "29": "39",
-        "30": "17",
-        "31": "54",
-        "32": "42",
-        "33": "56",
-        "34": "29",
-        "35": "34",
-        "36": "13"
+      "NAH": {
+        "numChapters": "3",
+        "1": "15",
+        "2": "13",
+        "3": "19"
       },
-      "DEU": {
-        "numChapters": "34",
-        "1": "46",
-        "2": "37",
-        "3": "29",
-        "4": "49",
-        "5": "33",
-        "6": "25",
-        "7": "26",
-        "8": "20",
-        "9": "29",
-        "10": "22",
-        "11": "32",
-        "12": "31",
-        "13": "19",
-        "14": "29",
-        "15": "23",
-        "16": "22",
-        "17": "20",
-        "18": "22",
-        "19": "21",
-        "20": "20",
-        "21": "23",
-        "22": "29",
-        "23": "26",
-        "24": "22",
-        "25": "19",
-        "26": "19",
-        "27": "26",
-        "28": "69",
-        "29": "28",
-        "30": "20",
-        "31": "30",
-        "32": "52",
-        "33": "29",
-        "34": "12"
+      "HAB": {
+        "numChapters": "3",
+        "1": "17",
+        "2": "20",
+        "3": "19"
       },
-      "JOS": {
-        "numChapters": "24",
+      "ZEP": {
+        "numChapters": "3",
         "1": "18",
-        "2": "24",
+        "2": "15",
+        "3": "20"
+      },
+      "HAG": {
+        "numChapters": "2",
+        "1": "14",
+        "2": "24"
+      },
+      "ZEC": {
+        "numChapters": "14",
+        "1": "21",
+        "2": "13",
+        "3": "10",
+        "4": "14",
+        "5": "11",
+        "6": "15",
+        "7": "14",
+        "8": "23",
+        "9": "17",
+        "10": "12",
+        "11": "17",
+        "12": "14",
+        "13": "9",
+        "14": "21"
+      },
+      "MAL": {
+        "numChapters": "4",
+        "1": "14",
+        "2": "17",
+        "3": "18",
+        "4": "6"
+      },
+      "MAT": {
+        "numChapters": "28",
+        "1": "25",
+        "2": "23",
         "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "29",
-        "9": "27",
+        "4": "25",
+        "5": "48",
+        "6": "34",
+        "7": "29",
+        "8": "34",
+        "9": "38",
         "10": "42",
-        "11": "23",
-        "12": "24",
-        "13": "32",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
+        "11": "30",
+        "12": "50",
+        "13": "58",
+        "14": "36",
+        "15": "39",
+        "16": "28",
+        "17": "26",
+        "18": "35",
+        "19": "30",
+        "20": "34",
+        "21": "46",
+        "22": "46",
+        "23": "39",
+        "24": "51",
+        "25": "46",
+        "26": "75",
+        "27": "66",
+        "28": "20"
       },
-      "JSA": {
+      "MRK": {
+        "numChapters": "16",
+        "1": "45",
+        "2": "28",
+        "3": "35",
+        "4": "40",
+        "5": "43",
+        "6": "56",
+        "7": "37",
+        "8": "39",
+        "9": "49",
+        "10": "52",
+        "11": "33",
+        "12": "44",
+        "13": "37",
+        "14": "72",
+        "15": "47",
+        "16": "20"
+      },
+      "LUK": {
         "numChapters": "24",
-        "1": "18",
-        "2": "24",
-        "3": "17",
-        "4": "24",
-        "5": "15",
-        "6": "27",
-        "7": "26",
-        "8": "29",
-        "9": "27",
+        "1": "80",
+        "2": "52",
+        "3": "38",
+        "4": "44",
+        "5": "39",
+        "6": "49",
+        "7": "50",
+        "8": "56",
+        "9": "62",
         "10": "42",
-        "11": "23",
-        "12": "24",
-        "13": "32",
-        "14": "15",
-        "15": "63",
-        "16": "10",
-        "17": "18",
-        "18": "28",
-        "19": "51",
-        "20": "9",
-        "21": "45",
-        "22": "34",
-        "23": "16",
-        "24": "33"
+        "11": "54",
+        "12": "59",
+        "13": "35",
+        "14": "35",
+        "15": "32",
+        "16": "31",
+        "17": "37",
+        "18": "43",
+        "19": "48",
+        "20": "47",
+        "21": "38",
+        "22": "71",
+        "23": "56",
+        "24": "53"
       },
-      "JGB": {
+      "JHN": {
         "numChapters": "21",
-        "1": "36",
-        "2": "23",
-        "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
-        "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
+        "1": "51",
+        "2": "25",
+        "3": "36",
+        "4": "54",
+        "5": "47",
+        "6": "72",
+        "7": "53",
+        "8": "59",
+        "9": "41",
+        "10": "42",
+        "11": "57",
+        "12": "50",
+        "13": "38",
+        "14": "31",
+        "15": "27",
+        "16": "33",
+        "17": "26",
+        "18": "40",
+        "19": "42",
+        "20": "31",
         "21": "25"
       },
-      "JDG": {
-        "numChapters": "21",
-        "1": "36",
-        "2": "23",
+      "ACT": {
+        "numChapters": "28",
+        "1": "26",
+        "2": "47",
+        "3": "26",
+        "4": "37",
+        "5": "42",
+        "6": "15",
+        "7": "59",
+        "8": "40",
+        "9": "43",
+        "10": "48",
+        "11": "30",
+        "12": "25",
+        "13": "52",
+        "14": "27",
+        "15": "41",
+        "16": "40",
+        "17": "34",
+        "18": "28",
+        "19": "40",
+        "20": "38",
+        "21": "40",
+        "22": "30",
+        "23": "35",
+        "24": "27",
+        "25": "27",
+        "26": "32",
+        "27": "44",
+        "28": "31"
+      },
+      "ROM": {
+        "numChapters": "16",
+        "1": "32",
+        "2": "29",
         "3": "31",
-        "4": "24",
-        "5": "31",
-        "6": "40",
+        "4": "25",
+        "5": "21",
+        "6": "23",
         "7": "25",
-        "8": "35",
-        "9": "57",
-        "10": "18",
-        "11": "40",
-        "12": "15",
-        "13": "25",
-        "14": "20",
-        "15": "20",
-        "16": "31",
-        "17": "13",
-        "18": "31",
-        "19": "30",
-        "20": "48",
-        "21": "25"
+        "8": "39",
+        "9": "33",
+        "10": "21",
+        "11": "36",
+        "12": "21",
+        "13": "14",
+        "14": "23",
+        "15": "33",
+        "16": "27"
       },
-      "RUT": {
-        "numChapters": "4",
-        "1": "22",
-        "2": "23",
+      "CO1": {
+        "numChapters": "16",
+        "1": "31",
+        "2": "16",
+        "3": "23",
+        "4": "21",
+        "5": "13",
+        "6": "20",
+        "7": "40",
+        "8": "13",
+        "9": "27",
+        "10": "33",
+        "11": "34",
+        "12": "31",
+        "13": "13",
+        "14": "40",
+        "15": "58",
+        "16": "24"
+      },
+      "CO2": {
+        "numChapters": "13",
+        "1": "24",
+        "2": "17",
         "3": "18",
-        "4": "22"
+        "4": "18",
+        "5": "21",
+        "6": "18",
+        "7": "16",
+        "8": "24",
+        "9": "15",
+        "10": "18",
+        "11": "33",
+        "12": "21",
+        "13": "13"
       },
-      "SA1": {
-        "numChapters": "31",
-        "1": "28",
-        "2": "36",
-        "3": "21",
-        "4": "22",
-        "5": "12",
-        "6": "21",
-        "7": "17",
-        "8": "22",
-        "9": "27",
-        "10": "27",
-        "11": "15",
-        "12": "25",
-        "13": "23",
-        "14": "52",
-        "15": "35",
-        "16": "23",
-        "17": "54",
-        "18": "29",
-        "19": "24",
-        "20": "42",
-        "21": "16",
-        "22": "23",
-        "23": "28",
-        "24": "23",
-        "25": "44",
-        "26": "25",
-        "27": "12",
-        "28": "25",
-        "29": "11",
-        "30": "31",
-        "31": "13"
+      "GAL": {
+        "numChapters": "6",
+        "1": "24",
+        "2": "21",
+        "3": "29",
+        "4": "31",
+        "5": "26",
+        "6": "18"
       },
-      "SA2": {
-        "numChapters": "24",
-        "1": "27",
-        "2": "32",
-        "3": "39",
-        "4": "12",
-        "5": "25",
-        "6": "23",
-        "7": "29",
-        "8": "18",
-        "9": "13",
-        "10": "19",
-        "11": "27",
-        "12": "31",
-        "13": "39",
-        "14": "33",
-        "15": "37",
-        "16": "23",
-        "17": "29",
-        "18": "32",
-        "19": "44",
-        "20": "26",
-        "21": "22",
-        "22": "51",
-        "23": "39",
-        "24": "25"
+      "EPH": {
+        "numChapters": "6",
+        "1": "23",
+        "2": "22",
+        "3": "21",
+        "4": "32",
+        "5": "33",
+        "6": "24"
       },
-      "KI1": {
-        "numChapters": "22",
-        "1": "53",
-        "2": "46",
-        "3": "28",
-        "4": "19",
-        "5": "32",
-        "6": "36",
-        "7": "50",
-        "8": "66",
-        "9": "28",
-        "10": "29",
-        "11": "43",
-        "12": "33",
-        "13": "34",
-        "14": "31",
-        "15": "34",
-        "16": "34",
-        "17": "24",
-        "18": "46",
-        "19": "21",
-        "20": "29",
-        "21": "43",
-        "22": "54"
+      "PHP": {
+        "numChapters": "4",
+        "1": "30",
+        "2": "30",
+        "3": "21",
+        "4": "23"
       },
-      "KI2": {
-        "numChapters": "25",
-        "1": "18",
-        "2": "25",
-        "3": "27",
-        "4": "44",
-        "5": "27",
-        "6": "33",
-        "7": "20",
-        "8": "29",
-        "9": "37",
-        "10": "36",
-        "11": "20",
-        "12": "22",
-        "13": "25",
-        "14": "29",
-        "15": "38",
-        "16": "20",
-        "17": "41",
-        "18": "37",
-        "19": "37",
-        "20": "21",
-        "21": "26",
-        "22": "20",
-        "23": "37",
-        "24": "20",
-        "25": "30"
+      "COL": {
+        "numChapters": "4",
+        "1": "29",
+        "2": "23",
+        "3": "25",
+        "4": "18"
       },
-      "CH1": {
-        "numChapters": "29",
-        "1": "54",
-        "2": "55",
-        "3": "24",
-        "4": "43",
-        "5": "41",
-        "6": "66",
-        "7": "40",
-        "8": "40",
-        "9": "44",
-        "10": "14",
-        "11": "47",
-        "12": "41",
-        "13": "14",
-        "14": "17",
-        "15": "29",
-        "16": "43",
-        "17": "27",
-        "18": "17",
-        "19": "19",
-        "20": "8",
-        "21": "30",
-        "22": "19",
-        "23": "32",
-        "24": "31",
-        "25": "31",
-        "26": "32",
-        "27": "34",
-        "28": "21",
-        "29": "30"
+      "TH1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "20",
+        "3": "13",
+        "4": "18",
+        "5": "28"
       },
-      "CH2": {
-        "numChapters": "36",
-        "1": "18",
+      "TH2": {
+        "numChapters": "3",
+        "1": "12",
         "2": "17",
-        "3": "17",
-        "4": "22",
-        "5": "14",
-        "6": "42",
-        "7": "22",
-        "8": "18",
-        "9": "31",
-        "10": "19",
-        "11": "23",
-        "12": "16",
-        "13": "23",
-        "14": "14",
-        "15": "19",
-        "16": "14",
-        "17": "19",
-        "18": "34",
-        "19": "11",
-        "20": "37",
-        "21": "20",
-        "22": "12",
-        "23": "21",
-        "24": "27",
-        "25": "28",
-        "26": "23",
-        "27": "9",
-        "28": "27",
-        "29": "36",
-        "30": "27",
-        "31": "21",
-        "32": "33",
-        "33": "25",
-        "34": "33",
-        "35": "27",
-        "36": "23"
+        "3": "18"
       },
-      "EZN": {
-        "numChapters": "9",
-        "1": "55",
+      "TI1": {
+        "numChapters": "6",
+        "1": "20",
+        "2": "15",
+        "3": "16",
+        "4": "16",
+        "5": "25",
+        "6": "21"
+      },
+      "TI2": {
+        "numChapters": "4",
+        "1": "18",
         "2": "26",
-        "3": "24",
-        "4": "63",
-        "5": "71",
-        "6": "33",
-        "7": "15",
-        "8": "92",
-        "9": "55"
+        "3": "17",
+        "4": "22"
       },
-      "EZR": {
-        "numChapters": "23",
-        "1": "11",
-        "2": "70",
-        "3": "13",
-        "4": "24",
-        "5": "17",
-        "6": "22",
+      "TIT": {
+        "numChapters": "3",
+        "1": "16",
+        "2": "15",
+        "3": "15"
+      },
+      "PHM": {
+        "numChapters": "1",
+        "1": "25"
+      },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
         "7": "28",
-        "8": "36",
-        "9": "15",
-        "10": "44",
-        "11": "11",
-        "12": "20",
-        "13": "37",
-        "14": "17",
-        "15": "19",
-        "16": "19",
-        "17": "73",
-        "18": "18",
-        "19": "37",
-        "20": "40",
-        "21": "36",
-        "22": "47",
-        "23": "31"
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
       },
-      "EST": {
-        "numChapters": "10",
-        "1": "22",
-        "2": "23",
-        "3": "15",
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
         "4": "17",
-        "5": "14",
-        "6": "14",
-        "7": "10",
-        "8": "17",
-        "9": "32",
-        "10": "3"
+        "5": "20"
       },
-      "JDT": {
-        "numChapters": "16",
-        "1": "16",
-        "2": "28",
-        "3": "10",
-        "4": "15",
-        "5": "24",
-        "6": "21",
-        "7": "32",
-        "8": "36",
-        "9": "14",
-        "10": "23",
-        "11": "23",
-        "12": "20",
-        "13": "20",
-        "14": "19",
-        "15": "14",
-        "16": "25"
+      "PE1": {
+        "numChapters": "5",
+        "1": "25",
+        "2": "25",
+        "3": "22",
+        "4": "19",
+        "5": "14"
       },
-      "TOB": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
-        "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
+      "PE2": {
+        "numChapters": "3",
+        "1": "21",
+        "2": "22",
+        "3": "18"
       },
-      "TBS": {
-        "numChapters": "14",
-        "1": "22",
-        "2": "14",
-        "3": "17",
+      "JN1": {
+        "numChapters": "5",
+        "1": "10",
+        "2": "29",
+        "3": "24",
         "4": "21",
-        "5": "23",
-        "6": "19",
-        "7": "17",
-        "8": "21",
-        "9": "6",
-        "10": "14",
-        "11": "19",
-        "12": "22",
-        "13": "18",
-        "14": "15"
+        "5": "21"
       },
-      "MA1": {
-        "numChapters": "16",
-        "1": "64",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "53",
-        "13": "53",
-        "14": "49",
-        "15": "41",
-        "16": "24"
+      "JN2": {
+        "numChapters": "1",
+        "1": "13"
       },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "32",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "45",
-        "13": "26",
-        "14": "46",
-        "15": "39"
+      "JN3": {
+        "numChapters": "1",
+        "1": "15"
       },
-      "MA3": {
-        "numChapters": "7",
-        "1": "29",
-        "2": "33",
-        "3": "30",
-        "4": "21",
-        "5": "51",
-        "6": "41",
-        "7": "23"
+      "JDE": {
+        "numChapters": "1",
+        "1": "25"
       },
-      "MA4": {
-        "numChapters": "18",
-        "1": "35",
-        "2": "24",
-        "3": "21",
-        "4": "26",
-        "5": "38",
-        "6": "35",
-        "7": "23",
-        "8": "29",
-        "9": "32",
-        "10": "21",
-        "11": "27",
-        "12": "19",
-        "13": "27",
+      "REV": {
+        "numChapters": "22",
+        "1": "20",
+        "2": "29",
+        "3": "22",
+        "4": "11",
+        "5": "14",
+        "6": "17",
+        "7": "17",
+        "8": "13",
+        "9": "21",
+        "10": "11",
+        "11": "19",
+        "12": "18",
+        "13": "18",
         "14": "20",
-        "15": "32",
-        "16": "25",
-        "17": "24",
-        "18": "24"
-      },
-      "PSA": {
-        "numChapters": "151",
-        "1": "6",
-        "2": "12",
-        "3": "9",
-        "4": "9",
-        "5": "13",
-        "6": "11",
-        "7": "18",
-        "8": "10",
-        "9": "39",
-        "10": "7",
-        "11": "9",
-        "12": "6",
-        "13": "7",
-        "14": "5",
-        "15": "11",
-        "16": "15",
-        "17": "51",
-        "18": "15",
-        "19": "10",
-        "20": "14",
-        "21": "32",
-        "22": "6",
-        "23": "10",
-        "24": "22",
-        "25": "12",
-        "26": "14",
-        "27": "9",
-        "28": "11",
-        "29": "13",
-        "30": "25",
-        "31": "11",
-        "32": "22",
-        "33": "23",
-        "34": "28",
-        "35": "13",
-        "36": "40",
-        "37": "23",
-        "38": "14",
-        "39": "18",
-        "40": "14",
-        "41": "12",
-        "42": "5",
-        "43": "27",
-        "44": "18",
-        "45": "12",
-        "46": "10",
-        "47": "15",
-        "48": "21",
-        "49": "23",
-        "50": "21",
-        "51": "11",
-        "52": "7",
-        "53": "9",
-        "54": "24",
-        "55": "14",
-        "56": "12",
-        "57": "12",
-        "58": "18",
-        "59": "14",
-        "60": "9",
-        "61": "13",
-        "62": "12",
-        "63": "11",
-        "64": "14",
-        "65": "20",
-        "66": "8",
-        "67": "36",
-        "68": "37",
-        "69": "6",
-        "70": "24",
-        "71": "20",
-        "72": "28",
-        "73": "23",
-        "74": "11",
-        "75": "13",
-        "76": "21",
-        "77": "72",
-        "78": "13",
-        "79": "20",
-        "80": "17",
-        "81": "8",
-        "82": "19",
-        "83": "13",
-        "84": "14",
-        "85": "17",
-        "86": "7",
-        "87": "19",
-        "88": "53",
-        "89": "17",
-        "90": "16",
-        "91": "16",
-        "92": "5",
-        "93": "23",
-        "94": "11",
-        "95": "13",
-        "96": "12",
-        "97": "9",
-        "98": "9",
-        "99": "5",
-        "100": "8",
-        "101": "29",
-        "102": "22",
-        "103": "35",
-        "104": "45",
-        "105": "48",
-        "106": "43",
-        "107": "14",
-        "108": "31",
-        "109": "7",
-        "110": "10",
-        "111": "10",
-        "112": "9",
-        "113": "26",
-        "114": "9",
-        "115": "10",
-        "116": "2",
-        "117": "29",
-        "118": "176",
-        "119": "7",
-        "120": "8",
-        "121": "9",
-        "122": "4",
-        "123": "8",
-        "124": "5",
-        "125": "6",
-        "126": "5",
-        "127": "6",
-        "128": "8",
-        "129": "8",
-        "130": "3",
-        "131": "18",
-        "132": "3",
-        "133": "3",
-        "134": "21",
-        "135": "26",
-        "136": "9",
-        "137": "8",
-        "138": "24",
-        "139": "14",
-        "140": "10",
-        "141": "8",
-        "142": "12",
-        "143": "15",
-        "144": "21",
-        "145": "10",
-        "146": "11",
-        "147": "9",
-        "148": "14",
-        "149": "9",
-        "150": "6",
-        "151": "7"
+        "15": "8",
+        "16": "21",
+        "17": "18",
+        "18": "24",
+        "19": "21",
+        "20": "15",
+        "21": "27",
+        "22": "21"
       },
-      "ODE": {
+      "TOB": {
         "numChapters": "14",
-        "1": "19",
-        "2": "43",
-        "3": "10",
-        "4": "19",
-        "5": "20",
-        "6": "10",
-        "7": "45",
-        "8": "88",
-        "9": "79",
-        "10": "9",
-        "11": "20",
-        "12": "15",
-        "13": "32",
-        "14": "46"
-      },
-      "PRO": {
-        "numChapters": "31",
-        "1": "33",
-        "2": "22",
-        "3": "35",
-        "4": "27",
-        "5": "23",
-        "6": "35",
-        "7": "27",
-        "8": "36",
-        "9": "18",
-        "10": "32",
-        "11": "31",
-        "12": "28",
-        "13": "25",
-        "14": "35",
-        "15": "33",
-        "16": "33",
-        "17": "28",
-        "18": "22",
-        "19": "29",
-        "20": "30",
-        "21": "31",
-        "22": "29",
-        "23": "35",
-        "24": "34",
-        "25": "28",
-        "26": "28",
-        "27": "27",
-        "28": "28",
-        "29": "27",
-        "30": "33",
-        "31": "31"
+        "1": "25",
+        "2": "23",
+        "3": "25",
+        "4": "23",
+        "5": "28",
+        "6": "22",
+        "7": "20",
+        "8": "24",
+        "9": "12",
+        "10": "13",
+        "11": "21",
+        "12": "22",
+        "13": "23",
+        "14": "17"
       },
-      "ECC": {
-        "numChapters": "12",
-        "1": "18",
-        "2": "26",
-        "3": "22",
+      "JDT": {
+        "numChapters": "16",
+        "1": "12",
+        "2": "18",
+        "3": "15",
         "4": "17",
-        "5": "19",
-        "6": "12",
-        "7": "29",
-        "8": "17",
-        "9": "18",
+        "5": "29",
+        "6": "21",
+        "7": "25",
+        "8": "34",
+        "9": "19",
         "10": "20",
-        "11": "10",
-        "12": "14"
-      },
-      "SNG": {
-        "numChapters": "8",
-        "1": "17",
-        "2": "17",
-        "3": "11",
-        "4": "16",
-        "5": "16",
-        "6": "12",
-        "7": "14",
-        "8": "14"
-      },
-      "JOB": {
-        "numChapters": "42",
-        "1": "22",
-        "2": "13",
-        "3": "26",
-        "4": "21",
-        "5": "27",
-        "6": "30",
-        "7": "21",
-        "8": "22",
-        "9": "35",
-        "10": "22",
-        "11": "20",
-        "12": "25",
-        "13": "28",
-        "14": "22",
-        "15": "35",
-        "16": "22",
-        "17": "16",
-        "18": "21",
-        "19": "29",
-        "20": "29",
-        "21": "34",
-        "22": "30",
-        "23": "17",
-        "24": "25",
-        "25": "6",
-        "26": "14",
-        "27": "23",
-        "28": "28",
-        "29": "25",
-        "30": "31",
-        "31": "40",
-        "32": "22",
-        "33": "33",
-        "34": "37",
-        "35": "16",
-        "36": "33",
-        "37": "24",
-        "38": "41",
-        "39": "30",
-        "40": "32",
-        "41": "26",
-        "42": "17"
+        "11": "21",
+        "12": "20",
+        "13": "31",
+        "14": "18",
+        "15": "15",
+        "16": "31"
       },
       "WIS": {
         "numChapters": "19",
         "1": "16",
-        "2": "24",
+        "2": "25",
         "3": "19",
         "4": "20",
-        "5": "23",
-        "6": "25",
+        "5": "24",
+        "6": "27",
         "7": "30",
         "8": "21",
-        "9": "18",
+        "9": "19",
         "10": "21",
-        "11": "26",
+        "11": "27",
         "12": "27",
         "13": "19",
         "14": "31",
@@ -61777,433 +62014,161 @@
         "16": "29",
         "17": "20",
         "18": "25",
-        "19": "22"
+        "19": "20"
       },
       "SIR": {
         "numChapters": "51",
-        "1": "30",
-        "2": "18",
-        "3": "31",
-        "4": "31",
-        "5": "15",
+        "1": "40",
+        "2": "23",
+        "3": "34",
+        "4": "36",
+        "5": "18",
         "6": "37",
-        "7": "36",
-        "8": "19",
-        "9": "18",
-        "10": "31",
-        "11": "34",
-        "12": "18",
-        "13": "26",
+        "7": "40",
+        "8": "22",
+        "9": "25",
+        "10": "34",
+        "11": "36",
+        "12": "19",
+        "13": "32",
         "14": "27",
-        "15": "20",
-        "16": "30",
-        "17": "32",
+        "15": "22",
+        "16": "31",
+        "17": "31",
         "18": "33",
-        "19": "30",
-        "20": "31",
-        "21": "28",
-        "22": "27",
-        "23": "27",
-        "24": "34",
-        "25": "26",
-        "26": "29",
-        "27": "30",
-        "28": "26",
-        "29": "28",
-        "30": "25",
-        "31": "31",
-        "32": "24",
-        "33": "33",
-        "34": "26",
-        "35": "24",
-        "36": "27",
-        "37": "31",
-        "38": "34",
-        "39": "35",
-        "40": "30",
-        "41": "27",
-        "42": "25",
-        "43": "33",
-        "44": "23",
-        "45": "26",
-        "46": "20",
-        "47": "25",
-        "48": "25",
-        "49": "16",
-        "50": "29",
-        "51": "30"
-      },
-      "PSS": {
-        "numChapters": "18",
-        "1": "8",
-        "2": "37",
-        "3": "12",
-        "4": "25",
-        "5": "19",
-        "6": "6",
-        "7": "10",
-        "8": "34",
-        "9": "11",
-        "10": "8",
-        "11": "9",
-        "12": "6",
-        "13": "12",
-        "14": "10",
-        "15": "13",
-        "16": "15",
-        "17": "46",
-        "18": "12"
-      },
-      "HOS": {
-        "numChapters": "14",
-        "1": "9",
-        "2": "25",
-        "3": "5",
-        "4": "19",
-        "5": "15",
-        "6": "11",
-        "7": "16",
-        "8": "14",
-        "9": "17",
-        "10": "15",
-        "11": "11",
-        "12": "15",
-        "13": "15",
-        "14": "10"
-      },
-      "AMO": {
-        "numChapters": "9",
-        "1": "15",
-        "2": "16",
-        "3": "15",
-        "4": "13",
-        "5": "27",
-        "6": "14",
-        "7": "17",
-        "8": "14",
-        "9": "15"
-      },
-      "MIC": {
-        "numChapters": "7",
-        "1": "16",
-        "2": "13",
-        "3": "12",
-        "4": "14",
-        "5": "14",
-        "6": "16",
-        "7": "20"
-      },
-      "JOL": {
-        "numChapters": "4",
-        "1": "20",
-        "2": "27",
-        "3": "5",
-        "4": "21"
-      },
-      "OBA": {
-        "numChapters": "1",
-        "1": "21"
-      },
-      "JNA": {
-        "numChapters": "4",
-        "1": "16",
-        "2": "11",
-        "3": "10",
-        "4": "11"
-      },
-      "NAH": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "14",
-        "3": "19"
-      },
-      "HAB": {
-        "numChapters": "3",
-        "1": "17",
-        "2": "20",
-        "3": "19"
-      },
-      "ZEP": {
-        "numChapters": "3",
-        "1": "18",
-        "2": "15",
-        "3": "20"
-      },
-      "HAG": {
-        "numChapters": "2",
-        "1": "15",
-        "2": "23"
-      },
-      "ZEC": {
-        "numChapters": "14",
-        "1": "17",
-        "2": "17",
-        "3": "10",
-        "4": "14",
-        "5": "11",
-        "6": "15",
-        "7": "14",
-        "8": "23",
-        "9": "17",
-        "10": "12",
-        "11": "17",
-        "12": "14",
-        "13": "9",
-        "14": "21"
-      },
-      "MAL": {
-        "numChapters": "3",
-        "1": "14",
-        "2": "17",
-        "3": "24"
-      },
-      "ISA": {
-        "numChapters": "66",
-        "1": "31",
-        "2": "21",
-        "3": "26",
-        "4": "6",
-        "5": "30",
-        "6": "13",
-        "7": "25",
-        "8": "23",
-        "9": "20",
-        "10": "34",
-        "11": "16",
-        "12": "6",
-        "13": "22",
-        "14": "32",
-        "15": "9",
-        "16": "14",
-        "17": "14",
-        "18": "7",
-        "19": "25",
-        "20": "6",
-        "21": "17",
-        "22": "25",
-        "23": "18",
-        "24": "23",
-        "25": "12",
-        "26": "21",
-        "27": "13",
-        "28": "29",
-        "29": "24",
-        "30": "33",
-        "31": "9",
-        "32": "20",
-        "33": "24",
-        "34": "17",
-        "35": "10",
-        "36": "22",
-        "37": "38",
-        "38": "22",
-        "39": "8",
-        "40": "31",
-        "41": "29",
-        "42": "25",
-        "43": "28",
-        "44": "28",
-        "45": "25",
-        "46": "13",
-        "47": "15",
-        "48": "22",
-        "49": "26",
-        "50": "11",
-        "51": "23",
-        "52": "15",
-        "53": "12",
-        "54": "17",
-        "55": "13",
-        "56": "11",
-        "57": "21",
-        "58": "14",
-        "59": "21",
-        "60": "22",
-        "61": "11",
-        "62": "12",
-        "63": "19",
-        "64": "11",
-        "65": "25",
-        "66": "24"
-      },
-      "JER": {
-        "numChapters": "52",
-        "1": "19",
-        "2": "37",
-        "3": "25",
-        "4": "31",
-        "5": "31",
-        "6": "30",
-        "7": "34",
-        "8": "23",
-        "9": "25",
-        "10": "25",
-        "11": "23",
-        "12": "17",
-        "13": "27",
-        "14": "22",
-        "15": "21",
-        "16": "21",
-        "17": "27",
-        "18": "23",
-        "19": "15",
-        "20": "18",
-        "21": "14",
-        "22": "30",
-        "23": "40",
-        "24": "10",
-        "25": "20",
+        "19": "28",
+        "20": "33",
+        "21": "31",
+        "22": "33",
+        "23": "38",
+        "24": "47",
+        "25": "36",
         "26": "28",
-        "27": "46",
-        "28": "64",
-        "29": "7",
-        "30": "33",
-        "31": "44",
-        "32": "38",
-        "33": "24",
-        "34": "22",
-        "35": "17",
-        "36": "32",
-        "37": "24",
-        "38": "40",
-        "39": "44",
-        "40": "13",
-        "41": "22",
-        "42": "19",
-        "43": "32",
-        "44": "21",
-        "45": "28",
-        "46": "18",
-        "47": "16",
-        "48": "18",
-        "49": "22",
-        "50": "13",
-        "51": "35",
-        "52": "34"
+        "27": "33",
+        "28": "30",
+        "29": "35",
+        "30": "27",
+        "31": "42",
+        "32": "28",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "28",
+        "37": "34",
+        "38": "39",
+        "39": "41",
+        "40": "32",
+        "41": "28",
+        "42": "26",
+        "43": "37",
+        "44": "27",
+        "45": "31",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "19",
+        "50": "31",
+        "51": "38"
       },
       "BAR": {
-        "numChapters": "5",
+        "numChapters": "6",
         "1": "22",
         "2": "35",
         "3": "38",
         "4": "37",
-        "5": "9"
-      },
-      "LAM": {
-        "numChapters": "5",
-        "1": "22",
-        "2": "22",
-        "3": "66",
-        "4": "22",
-        "5": "22"
-      },
-      "LJE": {
-        "numChapters": "1",
-        "1": "72"
+        "5": "9",
+        "6": "72"
       },
-      "EZE": {
-        "numChapters": "48",
-        "1": "28",
-        "2": "10",
-        "3": "27",
-        "4": "17",
-        "5": "17",
-        "6": "14",
-        "7": "27",
-        "8": "18",
-        "9": "11",
-        "10": "22",
-        "11": "25",
-        "12": "28",
-        "13": "23",
-        "14": "23",
-        "15": "8",
-        "16": "63",
-        "17": "24",
-        "18": "32",
-        "19": "14",
-        "20": "44",
-        "21": "37",
-        "22": "31",
-        "23": "49",
-        "24": "27",
-        "25": "17",
-        "26": "21",
-        "27": "36",
-        "28": "26",
-        "29": "21",
-        "30": "26",
-        "31": "18",
-        "32": "32",
-        "33": "33",
-        "34": "31",
-        "35": "15",
-        "36": "38",
-        "37": "28",
-        "38": "23",
-        "39": "29",
-        "40": "49",
-        "41": "26",
-        "42": "20",
-        "43": "27",
-        "44": "31",
-        "45": "25",
-        "46": "24",
-        "47": "23",
-        "48": "35"
+      "MA1": {
+        "numChapters": "16",
+        "1": "67",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "54",
+        "13": "54",
+        "14": "49",
+        "15": "41",
+        "16": "24"
       },
-      "SUS": {
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "33",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "46",
+        "13": "26",
+        "14": "46",
+        "15": "40"
+      },
+      "MAN": {
         "numChapters": "1",
-        "1": "64"
+        "1": "15"
       },
-      "SST": {
+      "PS2": {
         "numChapters": "1",
-        "1": "64"
+        "1": "7"
       },
-      "DAN": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "30",
-        "6": "29",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "31",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "97",
+        "9": "56"
       },
-      "DNT": {
-        "numChapters": "12",
-        "1": "21",
-        "2": "49",
-        "3": "97",
-        "4": "37",
-        "5": "30",
-        "6": "29",
-        "7": "28",
-        "8": "27",
-        "9": "27",
-        "10": "21",
-        "11": "45",
-        "12": "13"
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "60",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
       },
-      "BEL": {
+      "PSS": {
         "numChapters": "1",
-        "1": "42"
+        "1": "7"
       },
-      "BLT": {
+      "LAO": {
         "numChapters": "1",
-        "1": "42"
+        "1": "20"
       }
     },
     "omitted": {},
     "combined": {},
     "reordered": {}
   },
-  "Luther": {
+  "Vulgate2": {
     "CV": {
       "GEN": {
         "numChapters": "50",
@@ -62237,8 +62202,8 @@
         "28": "22",
         "29": "35",
         "30": "43",
-        "31": "54",
-        "32": "33",
+        "31": "55",
+        "32": "32",
         "33": "20",
         "34": "31",
         "35": "29",
@@ -62255,8 +62220,8 @@
         "46": "34",
         "47": "31",
         "48": "22",
-        "49": "33",
-        "50": "26"
+        "49": "32",
+        "50": "25"
       },
       "EXO": {
         "numChapters": "40",
@@ -62266,8 +62231,8 @@
         "4": "31",
         "5": "23",
         "6": "30",
-        "7": "29",
-        "8": "28",
+        "7": "25",
+        "8": "32",
         "9": "35",
         "10": "29",
         "11": "10",
@@ -62280,8 +62245,8 @@
         "18": "27",
         "19": "25",
         "20": "26",
-        "21": "37",
-        "22": "30",
+        "21": "36",
+        "22": "31",
         "23": "33",
         "24": "18",
         "25": "40",
@@ -62299,7 +62264,7 @@
         "37": "29",
         "38": "31",
         "39": "43",
-        "40": "38"
+        "40": "36"
       },
       "LEV": {
         "numChapters": "27",
@@ -62307,8 +62272,8 @@
         "2": "16",
         "3": "17",
         "4": "35",
-        "5": "26",
-        "6": "23",
+        "5": "19",
+        "6": "30",
         "7": "38",
         "8": "36",
         "9": "24",
@@ -62328,7 +62293,7 @@
         "23": "44",
         "24": "23",
         "25": "55",
-        "26": "46",
+        "26": "45",
         "27": "34"
       },
       "NUM": {
@@ -62343,21 +62308,21 @@
         "8": "26",
         "9": "23",
         "10": "36",
-        "11": "35",
-        "12": "16",
-        "13": "33",
+        "11": "34",
+        "12": "15",
+        "13": "34",
         "14": "45",
         "15": "41",
-        "16": "35",
-        "17": "28",
+        "16": "50",
+        "17": "13",
         "18": "32",
         "19": "22",
-        "20": "29",
+        "20": "30",
         "21": "35",
         "22": "41",
         "23": "30",
         "24": "25",
-        "25": "19",
+        "25": "18",
         "26": "65",
         "27": "23",
         "28": "31",
@@ -62383,8 +62348,8 @@
         "9": "29",
         "10": "22",
         "11": "32",
-        "12": "31",
-        "13": "19",
+        "12": "32",
+        "13": "18",
         "14": "29",
         "15": "23",
         "16": "22",
@@ -62393,14 +62358,14 @@
         "19": "21",
         "20": "20",
         "21": "23",
-        "22": "29",
-        "23": "26",
+        "22": "30",
+        "23": "25",
         "24": "22",
         "25": "19",
         "26": "19",
         "27": "26",
-        "28": "69",
-        "29": "28",
+        "28": "68",
+        "29": "29",
         "30": "20",
         "31": "30",
         "32": "52",
@@ -62412,8 +62377,8 @@
         "1": "18",
         "2": "24",
         "3": "17",
-        "4": "24",
-        "5": "15",
+        "4": "25",
+        "5": "16",
         "6": "27",
         "7": "26",
         "8": "35",
@@ -62429,7 +62394,7 @@
         "18": "28",
         "19": "51",
         "20": "9",
-        "21": "45",
+        "21": "43",
         "22": "34",
         "23": "16",
         "24": "33"
@@ -62440,7 +62405,7 @@
         "2": "23",
         "3": "31",
         "4": "24",
-        "5": "31",
+        "5": "32",
         "6": "40",
         "7": "25",
         "8": "35",
@@ -62456,7 +62421,7 @@
         "18": "31",
         "19": "30",
         "20": "48",
-        "21": "25"
+        "21": "24"
       },
       "RUT": {
         "numChapters": "4",
@@ -62486,8 +62451,8 @@
         "17": "58",
         "18": "30",
         "19": "24",
-        "20": "42",
-        "21": "16",
+        "20": "43",
+        "21": "15",
         "22": "23",
         "23": "28",
         "24": "23",
@@ -62518,8 +62483,8 @@
         "15": "37",
         "16": "23",
         "17": "29",
-        "18": "32",
-        "19": "44",
+        "18": "33",
+        "19": "43",
         "20": "26",
         "21": "22",
         "22": "51",
@@ -62531,8 +62496,8 @@
         "1": "53",
         "2": "46",
         "3": "28",
-        "4": "20",
-        "5": "32",
+        "4": "34",
+        "5": "18",
         "6": "38",
         "7": "51",
         "8": "66",
@@ -62563,11 +62528,11 @@
         "8": "29",
         "9": "37",
         "10": "36",
-        "11": "20",
-        "12": "22",
+        "11": "21",
+        "12": "21",
         "13": "25",
         "14": "29",
-        "15": "39",
+        "15": "38",
         "16": "20",
         "17": "41",
         "18": "37",
@@ -62585,14 +62550,14 @@
         "2": "55",
         "3": "24",
         "4": "43",
-        "5": "41",
-        "6": "66",
+        "5": "26",
+        "6": "81",
         "7": "40",
         "8": "40",
         "9": "44",
         "10": "14",
-        "11": "47",
-        "12": "41",
+        "11": "46",
+        "12": "40",
         "13": "14",
         "14": "17",
         "15": "29",
@@ -62600,7 +62565,7 @@
         "17": "27",
         "18": "17",
         "19": "19",
-        "20": "8",
+        "20": "7",
         "21": "30",
         "22": "19",
         "23": "32",
@@ -62613,8 +62578,8 @@
       },
       "CH2": {
         "numChapters": "36",
-        "1": "18",
-        "2": "17",
+        "1": "17",
+        "2": "18",
         "3": "17",
         "4": "22",
         "5": "14",
@@ -62625,8 +62590,8 @@
         "10": "19",
         "11": "23",
         "12": "16",
-        "13": "23",
-        "14": "14",
+        "13": "22",
+        "14": "15",
         "15": "19",
         "16": "14",
         "17": "19",
@@ -62667,20 +62632,20 @@
         "numChapters": "13",
         "1": "11",
         "2": "20",
-        "3": "38",
-        "4": "17",
+        "3": "31",
+        "4": "23",
         "5": "19",
         "6": "19",
         "7": "73",
         "8": "18",
-        "9": "37",
-        "10": "40",
+        "9": "38",
+        "10": "39",
         "11": "36",
-        "12": "47",
+        "12": "46",
         "13": "31"
       },
       "EST": {
-        "numChapters": "10",
+        "numChapters": "16",
         "1": "22",
         "2": "23",
         "3": "15",
@@ -62690,7 +62655,13 @@
         "7": "10",
         "8": "17",
         "9": "32",
-        "10": "3"
+        "10": "13",
+        "11": "12",
+        "12": "6",
+        "13": "18",
+        "14": "19",
+        "15": "19",
+        "16": "24"
       },
       "JOB": {
         "numChapters": "42",
@@ -62709,7 +62680,7 @@
         "13": "28",
         "14": "22",
         "15": "35",
-        "16": "22",
+        "16": "23",
         "17": "16",
         "18": "21",
         "19": "29",
@@ -62732,159 +62703,159 @@
         "36": "33",
         "37": "24",
         "38": "41",
-        "39": "30",
-        "40": "32",
-        "41": "26",
-        "42": "17"
+        "39": "35",
+        "40": "28",
+        "41": "25",
+        "42": "16"
       },
       "PSA": {
         "numChapters": "150",
         "1": "6",
-        "2": "12",
+        "2": "13",
         "3": "9",
-        "4": "9",
+        "4": "10",
         "5": "13",
         "6": "11",
         "7": "18",
         "8": "10",
-        "9": "21",
-        "10": "18",
-        "11": "7",
-        "12": "9",
-        "13": "6",
-        "14": "7",
-        "15": "5",
-        "16": "11",
-        "17": "15",
-        "18": "51",
-        "19": "15",
-        "20": "10",
-        "21": "14",
-        "22": "32",
-        "23": "6",
-        "24": "10",
-        "25": "22",
-        "26": "12",
-        "27": "14",
-        "28": "9",
-        "29": "11",
-        "30": "13",
-        "31": "25",
-        "32": "11",
-        "33": "22",
-        "34": "23",
-        "35": "28",
-        "36": "13",
-        "37": "40",
-        "38": "23",
-        "39": "14",
-        "40": "18",
-        "41": "14",
-        "42": "12",
-        "43": "5",
-        "44": "27",
-        "45": "18",
-        "46": "12",
-        "47": "10",
-        "48": "15",
-        "49": "21",
-        "50": "23",
-        "51": "21",
-        "52": "11",
-        "53": "7",
-        "54": "9",
-        "55": "24",
-        "56": "14",
+        "9": "39",
+        "10": "8",
+        "11": "9",
+        "12": "6",
+        "13": "7",
+        "14": "5",
+        "15": "10",
+        "16": "15",
+        "17": "51",
+        "18": "15",
+        "19": "10",
+        "20": "14",
+        "21": "32",
+        "22": "6",
+        "23": "10",
+        "24": "22",
+        "25": "12",
+        "26": "14",
+        "27": "9",
+        "28": "11",
+        "29": "13",
+        "30": "25",
+        "31": "11",
+        "32": "22",
+        "33": "23",
+        "34": "28",
+        "35": "13",
+        "36": "40",
+        "37": "23",
+        "38": "14",
+        "39": "18",
+        "40": "14",
+        "41": "12",
+        "42": "5",
+        "43": "26",
+        "44": "18",
+        "45": "12",
+        "46": "10",
+        "47": "15",
+        "48": "21",
+        "49": "23",
+        "50": "21",
+        "51": "11",
+        "52": "7",
+        "53": "9",
+        "54": "24",
+        "55": "13",
+        "56": "12",
         "57": "12",
-        "58": "12",
-        "59": "18",
-        "60": "14",
-        "61": "9",
-        "62": "13",
-        "63": "12",
-        "64": "11",
-        "65": "14",
-        "66": "20",
-        "67": "8",
-        "68": "36",
-        "69": "37",
-        "70": "6",
-        "71": "24",
-        "72": "20",
-        "73": "28",
-        "74": "23",
-        "75": "11",
-        "76": "13",
-        "77": "21",
-        "78": "72",
-        "79": "13",
-        "80": "20",
-        "81": "17",
-        "82": "8",
-        "83": "19",
-        "84": "13",
-        "85": "14",
-        "86": "17",
-        "87": "7",
-        "88": "19",
-        "89": "53",
-        "90": "17",
+        "58": "18",
+        "59": "14",
+        "60": "9",
+        "61": "13",
+        "62": "12",
+        "63": "11",
+        "64": "14",
+        "65": "20",
+        "66": "8",
+        "67": "36",
+        "68": "37",
+        "69": "6",
+        "70": "24",
+        "71": "20",
+        "72": "28",
+        "73": "23",
+        "74": "11",
+        "75": "13",
+        "76": "21",
+        "77": "72",
+        "78": "13",
+        "79": "20",
+        "80": "17",
+        "81": "8",
+        "82": "19",
+        "83": "13",
+        "84": "14",
+        "85": "17",
+        "86": "7",
+        "87": "19",
+        "88": "53",
+        "89": "17",
+        "90": "16",
         "91": "16",
-        "92": "16",
-        "93": "5",
-        "94": "23",
-        "95": "11",
-        "96": "13",
-        "97": "12",
+        "92": "5",
+        "93": "23",
+        "94": "11",
+        "95": "13",
+        "96": "12",
+        "97": "9",
         "98": "9",
-        "99": "9",
-        "100": "5",
-        "101": "8",
-        "102": "29",
-        "103": "22",
-        "104": "35",
-        "105": "45",
-        "106": "48",
-        "107": "43",
-        "108": "14",
-        "109": "31",
-        "110": "7",
+        "99": "5",
+        "100": "8",
+        "101": "29",
+        "102": "22",
+        "103": "35",
+        "104": "45",
+        "105": "48",
+        "106": "43",
+        "107": "14",
+        "108": "31",
+        "109": "7",
+        "110": "10",
         "111": "10",
-        "112": "10",
-        "113": "9",
-        "114": "8",
-        "115": "18",
-        "116": "19",
-        "117": "2",
-        "118": "29",
-        "119": "176",
-        "120": "7",
-        "121": "8",
-        "122": "9",
-        "123": "4",
-        "124": "8",
-        "125": "5",
-        "126": "6",
-        "127": "5",
-        "128": "6",
+        "112": "9",
+        "113": "26",
+        "114": "9",
+        "115": "19",
+        "116": "2",
+        "117": "29",
+        "118": "176",
+        "119": "7",
+        "120": "8",
+        "121": "9",
+        "122": "4",
+        "123": "8",
+        "124": "5",
+        "125": "6",
+        "126": "5",
+        "127": "6",
+        "128": "8",
         "129": "8",
-        "130": "8",
-        "131": "3",
-        "132": "18",
+        "130": "3",
+        "131": "18",
+        "132": "3",
         "133": "3",
-        "134": "3",
-        "135": "21",
-        "136": "26",
-        "137": "9",
-        "138": "8",
-        "139": "24",
-        "140": "14",
-        "141": "10",
-        "142": "8",
-        "143": "12",
-        "144": "15",
-        "145": "21",
-        "146": "10",
+        "134": "21",
+        "135": "26",
+        "136": "9",
+        "137": "8",
+        "138": "24",
+        "139": "14",
+        "140": "10",
+        "141": "8",
+        "142": "12",
+        "143": "15",
+        "144": "21",
+        "145": "10",
+        "146": "11",
         "147": "20",
         "148": "14",
         "149": "9",
@@ -62931,8 +62902,8 @@
         "3": "22",
         "4": "17",
         "5": "19",
-        "6": "12",
-        "7": "29",
+        "6": "11",
+        "7": "30",
         "8": "17",
         "9": "18",
         "10": "20",
@@ -62941,13 +62912,13 @@
       },
       "SNG": {
         "numChapters": "8",
-        "1": "17",
+        "1": "16",
         "2": "17",
         "3": "11",
         "4": "16",
-        "5": "16",
+        "5": "17",
         "6": "12",
-        "7": "14",
+        "7": "13",
         "8": "14"
       },
       "ISA": {
@@ -62959,8 +62930,8 @@
         "5": "30",
         "6": "13",
         "7": "25",
-        "8": "23",
-        "9": "20",
+        "8": "22",
+        "9": "21",
         "10": "34",
         "11": "16",
         "12": "6",
@@ -63015,7 +62986,7 @@
         "61": "11",
         "62": "12",
         "63": "19",
-        "64": "11",
+        "64": "12",
         "65": "25",
         "66": "24"
       },
@@ -63028,8 +62999,8 @@
         "5": "31",
         "6": "30",
         "7": "34",
-        "8": "23",
-        "9": "25",
+        "8": "22",
+        "9": "26",
         "10": "25",
         "11": "23",
         "12": "17",
@@ -63057,7 +63028,7 @@
         "34": "22",
         "35": "19",
         "36": "32",
-        "37": "21",
+        "37": "20",
         "38": "28",
         "39": "18",
         "40": "16",
@@ -63085,7 +63056,7 @@
       "EZE": {
         "numChapters": "48",
         "1": "28",
-        "2": "10",
+        "2": "9",
         "3": "27",
         "4": "17",
         "5": "17",
@@ -63103,8 +63074,8 @@
         "17": "24",
         "18": "32",
         "19": "14",
-        "20": "44",
-        "21": "37",
+        "20": "49",
+        "21": "32",
         "22": "31",
         "23": "49",
         "24": "27",
@@ -63134,24 +63105,26 @@
         "48": "35"
       },
       "DAN": {
-        "numChapters": "12",
+        "numChapters": "14",
         "1": "21",
         "2": "49",
-        "3": "33",
+        "3": "100",
         "4": "34",
-        "5": "30",
-        "6": "29",
+        "5": "31",
+        "6": "28",
         "7": "28",
         "8": "27",
         "9": "27",
         "10": "21",
         "11": "45",
-        "12": "13"
+        "12": "13",
+        "13": "65",
+        "14": "41"
       },
       "HOS": {
         "numChapters": "14",
-        "1": "9",
-        "2": "25",
+        "1": "11",
+        "2": "24",
         "3": "5",
         "4": "19",
         "5": "15",
@@ -63160,17 +63133,16 @@
         "8": "14",
         "9": "17",
         "10": "15",
-        "11": "11",
-        "12": "15",
+        "11": "12",
+        "12": "14",
         "13": "15",
         "14": "10"
       },
       "JOL": {
-        "numChapters": "4",
+        "numChapters": "3",
         "1": "20",
-        "2": "27",
-        "3": "5",
-        "4": "21"
+        "2": "32",
+        "3": "21"
       },
       "AMO": {
         "numChapters": "9",
@@ -63179,7 +63151,7 @@
         "3": "15",
         "4": "13",
         "5": "27",
-        "6": "14",
+        "6": "15",
         "7": "17",
         "8": "14",
         "9": "15"
@@ -63200,15 +63172,15 @@
         "1": "16",
         "2": "13",
         "3": "12",
-        "4": "14",
+        "4": "13",
         "5": "14",
         "6": "16",
         "7": "20"
       },
       "NAH": {
         "numChapters": "3",
-        "1": "14",
-        "2": "14",
+        "1": "15",
+        "2": "13",
         "3": "19"
       },
       "HAB": {
@@ -63225,13 +63197,13 @@
       },
       "HAG": {
         "numChapters": "2",
-        "1": "15",
-        "2": "23"
+        "1": "14",
+        "2": "24"
       },
       "ZEC": {
         "numChapters": "14",
-        "1": "17",
-        "2": "17",
+        "1": "21",
+        "2": "13",
         "3": "10",
         "4": "14",
         "5": "11",
@@ -63246,188 +63218,11 @@
         "14": "21"
       },
       "MAL": {
-        "numChapters": "3",
+        "numChapters": "4",
         "1": "14",
         "2": "17",
-        "3": "24"
-      },
-      "JDT": {
-        "numChapters": "16",
-        "1": "11",
-        "2": "18",
-        "3": "12",
-        "4": "14",
-        "5": "26",
-        "6": "20",
-        "7": "24",
-        "8": "28",
-        "9": "15",
-        "10": "21",
-        "11": "17",
-        "12": "21",
-        "13": "31",
-        "14": "16",
-        "15": "16",
-        "16": "31"
-      },
-      "WIS": {
-        "numChapters": "19",
-        "1": "16",
-        "2": "25",
-        "3": "19",
-        "4": "20",
-        "5": "24",
-        "6": "27",
-        "7": "30",
-        "8": "21",
-        "9": "19",
-        "10": "21",
-        "11": "26",
-        "12": "27",
-        "13": "19",
-        "14": "31",
-        "15": "19",
-        "16": "29",
-        "17": "21",
-        "18": "25",
-        "19": "21"
-      },
-      "TOB": {
-        "numChapters": "14",
-        "1": "25",
-        "2": "23",
-        "3": "25",
-        "4": "22",
-        "5": "29",
-        "6": "23",
-        "7": "20",
-        "8": "23",
-        "9": "12",
-        "10": "13",
-        "11": "20",
-        "12": "22",
-        "13": "22",
-        "14": "17"
-      },
-      "SIR": {
-        "numChapters": "51",
-        "1": "38",
-        "2": "23",
-        "3": "34",
-        "4": "36",
-        "5": "18",
-        "6": "37",
-        "7": "40",
-        "8": "22",
-        "9": "25",
-        "10": "34",
-        "11": "35",
-        "12": "19",
-        "13": "32",
-        "14": "27",
-        "15": "21",
-        "16": "30",
-        "17": "31",
-        "18": "33",
-        "19": "27",
-        "20": "33",
-        "21": "31",
-        "22": "33",
-        "23": "37",
-        "24": "47",
-        "25": "34",
-        "26": "28",
-        "27": "33",
-        "28": "30",
-        "29": "35",
-        "30": "27",
-        "31": "40",
-        "32": "28",
-        "33": "32",
-        "34": "31",
-        "35": "26",
-        "36": "28",
-        "37": "34",
-        "38": "39",
-        "39": "41",
-        "40": "32",
-        "41": "29",
-        "42": "26",
-        "43": "37",
-        "44": "26",
-        "45": "32",
-        "46": "23",
-        "47": "31",
-        "48": "28",
-        "49": "20",
-        "50": "31",
-        "51": "38"
-      },
-      "BAR": {
-        "numChapters": "6",
-        "1": "22",
-        "2": "35",
-        "3": "38",
-        "4": "37",
-        "5": "9",
-        "6": "73"
-      },
-      "MA1": {
-        "numChapters": "16",
-        "1": "68",
-        "2": "70",
-        "3": "60",
-        "4": "61",
-        "5": "68",
-        "6": "63",
-        "7": "50",
-        "8": "32",
-        "9": "73",
-        "10": "89",
-        "11": "74",
-        "12": "54",
-        "13": "54",
-        "14": "49",
-        "15": "41",
-        "16": "24"
-      },
-      "MA2": {
-        "numChapters": "15",
-        "1": "36",
-        "2": "33",
-        "3": "40",
-        "4": "50",
-        "5": "27",
-        "6": "31",
-        "7": "42",
-        "8": "36",
-        "9": "29",
-        "10": "38",
-        "11": "38",
-        "12": "46",
-        "13": "26",
-        "14": "46",
-        "15": "40"
-      },
-      "ESA": {
-        "numChapters": "7",
-        "1": "4",
-        "2": "8",
-        "3": "12",
-        "4": "12",
-        "5": "16",
-        "6": "9",
-        "7": "8"
-      },
-      "DNA": {
-        "numChapters": "3",
-        "1": "64",
-        "2": "41",
-        "3": "66"
-      },
-      "MAN": {
-        "numChapters": "1",
-        "1": "16"
+        "3": "18",
+        "4": "6"
       },
       "MAT": {
         "numChapters": "28",
@@ -63447,7 +63242,7 @@
         "14": "36",
         "15": "39",
         "16": "28",
-        "17": "27",
+        "17": "26",
         "18": "35",
         "19": "30",
         "20": "34",
@@ -63465,12 +63260,12 @@
         "1": "45",
         "2": "28",
         "3": "35",
-        "4": "41",
+        "4": "40",
         "5": "43",
         "6": "56",
         "7": "37",
-        "8": "38",
-        "9": "50",
+        "8": "39",
+        "9": "49",
         "10": "52",
         "11": "33",
         "12": "44",
@@ -63513,7 +63308,7 @@
         "3": "36",
         "4": "54",
         "5": "47",
-        "6": "71",
+        "6": "72",
         "7": "53",
         "8": "59",
         "9": "41",
@@ -63538,14 +63333,14 @@
         "4": "37",
         "5": "42",
         "6": "15",
-        "7": "60",
+        "7": "59",
         "8": "40",
         "9": "43",
         "10": "48",
         "11": "30",
         "12": "25",
         "13": "52",
-        "14": "28",
+        "14": "27",
         "15": "41",
         "16": "40",
         "17": "34",
@@ -63687,6 +63482,30 @@
         "numChapters": "1",
         "1": "25"
       },
+      "HEB": {
+        "numChapters": "13",
+        "1": "14",
+        "2": "18",
+        "3": "19",
+        "4": "16",
+        "5": "14",
+        "6": "20",
+        "7": "28",
+        "8": "13",
+        "9": "28",
+        "10": "39",
+        "11": "40",
+        "12": "29",
+        "13": "25"
+      },
+      "JAM": {
+        "numChapters": "5",
+        "1": "27",
+        "2": "26",
+        "3": "18",
+        "4": "17",
+        "5": "20"
+      },
       "PE1": {
         "numChapters": "5",
         "1": "25",
@@ -63717,30 +63536,6 @@
         "numChapters": "1",
         "1": "15"
       },
-      "HEB": {
-        "numChapters": "13",
-        "1": "14",
-        "2": "18",
-        "3": "19",
-        "4": "16",
-        "5": "14",
-        "6": "20",
-        "7": "28",
-        "8": "13",
-        "9": "28",
-        "10": "39",
-        "11": "40",
-        "12": "29",
-        "13": "25"
-      },
-      "JAM": {
-        "numChapters": "5",
-        "1": "27",
-        "2": "26",
-        "3": "18",
-        "4": "17",
-        "5": "20"
-      },
       "JDE": {
         "numChapters": "1",
         "1": "25"
@@ -63769,6 +63564,211 @@
         "20": "15",
         "21": "27",
         "22": "21"
+      },
+      "TOB": {
+        "numChapters": "14",
+        "1": "25",
+        "2": "23",
+        "3": "25",
+        "4": "23",
+        "5": "28",
+        "6": "22",
+        "7": "20",
+        "8": "24",
+        "9": "12",
+        "10": "13",
+        "11": "21",
+        "12": "22",
+        "13": "23",
+        "14": "17"
+      },
+      "JDT": {
+        "numChapters": "16",
+        "1": "12",
+        "2": "18",
+        "3": "15",
+        "4": "17",
+        "5": "29",
+        "6": "21",
+        "7": "25",
+        "8": "34",
+        "9": "19",
+        "10": "20",
+        "11": "21",
+        "12": "20",
+        "13": "31",
+        "14": "18",
+        "15": "15",
+        "16": "31"
+      },
+      "WIS": {
+        "numChapters": "19",
+        "1": "16",
+        "2": "25",
+        "3": "19",
+        "4": "20",
+        "5": "24",
+        "6": "27",
+        "7": "30",
+        "8": "21",
+        "9": "19",
+        "10": "21",
+        "11": "27",
+        "12": "27",
+        "13": "19",
+        "14": "31",
+        "15": "19",
+        "16": "29",
+        "17": "20",
+        "18": "25",
+        "19": "20"
+      },
+      "SIR": {
+        "numChapters": "51",
+        "1": "40",
+        "2": "23",
+        "3": "34",
+        "4": "36",
+        "5": "18",
+        "6": "37",
+        "7": "40",
+        "8": "22",
+        "9": "25",
+        "10": "34",
+        "11": "36",
+        "12": "19",
+        "13": "32",
+        "14": "27",
+        "15": "22",
+        "16": "31",
+        "17": "31",
+        "18": "33",
+        "19": "28",
+        "20": "33",
+        "21": "31",
+        "22": "33",
+        "23": "38",
+        "24": "47",
+        "25": "36",
+        "26": "28",
+        "27": "33",
+        "28": "30",
+        "29": "35",
+        "30": "27",
+        "31": "42",
+        "32": "28",
+        "33": "33",
+        "34": "31",
+        "35": "26",
+        "36": "28",
+        "37": "34",
+        "38": "39",
+        "39": "41",
+        "40": "32",
+        "41": "28",
+        "42": "26",
+        "43": "37",
+        "44": "27",
+        "45": "31",
+        "46": "23",
+        "47": "31",
+        "48": "28",
+        "49": "19",
+        "50": "31",
+        "51": "38"
+      },
+      "BAR": {
+        "numChapters": "6",
+        "1": "22",
+        "2": "35",
+        "3": "38",
+        "4": "37",
+        "5": "9",
+        "6": "72"
+      },
+      "MA1": {
+        "numChapters": "16",
+        "1": "67",
+        "2": "70",
+        "3": "60",
+        "4": "61",
+        "5": "68",
+        "6": "63",
+        "7": "50",
+        "8": "32",
+        "9": "73",
+        "10": "89",
+        "11": "74",
+        "12": "54",
+        "13": "54",
+        "14": "49",
+        "15": "41",
+        "16": "24"
+      },
+      "MA2": {
+        "numChapters": "15",
+        "1": "36",
+        "2": "33",
+        "3": "40",
+        "4": "50",
+        "5": "27",
+        "6": "31",
+        "7": "42",
+        "8": "36",
+        "9": "29",
+        "10": "38",
+        "11": "38",
+        "12": "46",
+        "13": "26",
+        "14": "46",
+        "15": "40"
+      },
+      "MAN": {
+        "numChapters": "1",
+        "1": "15"
+      },
+      "PS2": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "GES": {
+        "numChapters": "9",
+        "1": "58",
+        "2": "31",
+        "3": "24",
+        "4": "63",
+        "5": "73",
+        "6": "34",
+        "7": "15",
+        "8": "97",
+        "9": "56"
+      },
+      "LES": {
+        "numChapters": "16",
+        "1": "40",
+        "2": "48",
+        "3": "36",
+        "4": "52",
+        "5": "56",
+        "6": "59",
+        "7": "140",
+        "8": "63",
+        "9": "47",
+        "10": "60",
+        "11": "46",
+        "12": "51",
+        "13": "58",
+        "14": "48",
+        "15": "63",
+        "16": "78"
+      },
+      "PSS": {
+        "numChapters": "1",
+        "1": "7"
+      },
+      "LAO": {
+        "numChapters": "1",
+        "1": "20"
       }
     },
     "omitted": {},
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/BibleVersificationSystems_Tables.pickle
index ad2a37b0d1ffe48828df90835f5600dd7ab3fe32..6c2cf0bb7a3ff741607392d07c8a9e16bbda2b64 100644
GIT binary patch
delta 6185
zcmZ{oe{fXQ702`5?n0N4CZvNj6c9qC;fI9mW&_9%r@)BS5h+MotwJ~Yn9U_tY6%5}
zz951qJ8dl+9=}>_2dzaXRkrv<3!*?NKRQ5BaM~GUsQu-Pw&T=Nk+D7Jd(KUsY|S5e
zpLgE5_ndRjIrrVST^9$uba6mUN4(Q1bISN{WuY#goYvZMOLo~DZ{hQU?sCH8^Wz7m
z^v(Ca@7~rWOT2puD+?R8j~yI7I6D48L-nw79%F{f<r=yaUmQCnHM~^5ve2IIJKbw(
z&wlH^1=HruYz|N5oiDoK?0-1FuPCOg_73umjH)xw4lXOZt59bS&^7O-(uK7JbA&io
zxwhb$KkCzq^0a}U_8!8TnF++6X}X$+o7?D;cN=(g)>PNZlsD2f@1`g6pf=)Mg@sDr
zQa=lyv(Vqd01Gt=WMG_~ix|%Eyu_)993iN@F(S`I*l&v5jE^u!1!rl}ZpUd|B8F2D
z!>Nd2SvxVDiWp8s45!rYboM$GF`Sa+T#ltPMMQ;3vgR^mx&EAyY<o}s!<X{TAI4N&
znf~A#bDh5=J6)}^@XNP3@1;J!EW_)ccbg^@+S|L6|Cw>Y%txGpf4o65)+a?;oB#kP
z0Kf@gunADcIw)ful#u{stb;PvK^g0yJbpAUy51lG%1D4P65yHn>0s*H?$GPf;_r{>
zO6v$m3Sg;<E#O8N|B1+%J+m_%ytU35=D#Qd;l+MoNx(t6;dVF&VHyhWfEzelo_P-n
zxqiroscwXNZUEIevROw0VpzV87^^uA!W4(&nHh9bO)Yb$2w5|0QkmfKN1a;tYnfp8
zqfVFK!s$xVssPF@a05X?r69ol0}1yJfYS%y^Z_`13^skrSha=L5P%IWCW#N*OgSq;
z^FqS50c;z<wgGG#z_tNwo59*vhHYgo9nWkgC0h7gGDp(}+4WAX|0KpqcAu9yP(sSc
zO_Ah0!T{JB16k{SN{pHkxy-hkNAY5Yq6`IP6dki~D{C)n^VAGBkXIukg{9{Yh#dWJ
zNEkB;%RZuvMNp3D%RX`_Gm(wSq^gAIl@XsZDl@t>eBn9w+iBl!@#iN=O%It&ad3(N
zoFV{6#$Y2;hIh*FP8r>;j51e-bINcotvBckWh}HZmPJ^*`~E51-B(Y_PZ5WoqN`29
z(_m@uF0i!sE|E)n@0-HyUF*v@c=5WhboZNd!`=Npgwov~gSETesjOhTdj#(4db)cu
z32b-IBF1VqL#W;TbsjQ?YF>oW-HWb=*<59gI)x^u#-{(&S)SQ+ebBt#xz^u7DmK)e
z;07%2bHZ3$WrVeh<fwZ9r;x$cy)sr?SnB>)Jc{f71yP0qGu67h?&N`J|C+UVY6e>!
z`y(TTr9@v7IV$C#FcK^*b+3%dQda$25j{#vA0T>VM6ZnKm9MOOJ|DH`V>jOvIq>|Z
zYQw(M6=7vp;#g(4Ga1`eRr1Cxe)Idcrb?t?>#@XzQ9Uox;?U72oxa_#&Li{6!Y}<N
zG24lqB^q`l(dYzSml9R=6K|Iqn@d-l(RpAg-UY%^u#0Y&_tA1uMsTZyrDE664Oi@T
z2&H150c*wn5(>6rPm6j_#r|E!VKqM@M#aYNfNPu|&m`z(Aia+Ui;y)xamu)AYvP45
z<#sPwJijbFdpI%EiG7cV!k*#OpU;Yqm*{FEz6_R#d$q6}_3WAI7KwN$gmNCL6PAd_
z&<#g?1B4Rs9I!^*3<VqU1ESs&@egGjBK{dMBHjt1_UN;8lc9(YiVzW-*1KVrj#>0J
zq5rf`(tp|{z39d|^j+uQ)wZBst_kNKiC=Pp)#uz9!R+$b^kDnIcx6!YmRp`MeBugD
zKIGJfzZm2;C9dN8E6-oE+rp}|@sT6LCl<MVop6?uxNxm&+JetM;BN4jwUP7u`hDmV
z!0ihOzlQ<*`UCKL7{Hr6fH!#nw=silV`a3WGFnlYIx$l)53^yOoq_f}9D*NVAs<Zu
z>>q&K^32cMcsCpFn<572%NE>#Cf+TKI^QFVM7<KxQHIW|B!>q84uZi3q1>%Wa_nfn
zJP`8-cnV&$LoyN?%JOE0T$GQoGOr$hSMNk*l(6h~r$mlL`>QY_VZM_bLAW2t19s3e
zgYM-DqXP~tUe<gUcXehpUHL3&)-bSXz!iljJ6n9#oVlO2wQa76AMaPPi4|Yj-?vw?
zGj2ZyRyD*Yy5WhVu@z3S<7lt?k^$ip+u~<>jt(~!q#2jem4d=bE914UES-CIrzkI{
zt6c$Q3{=KIWf}NW4CEHpFG&BWPW29^lCLafeo1)dU!st!;TKe{hDLI6dZu}!_;3$h
zX)nSXMH%T)Mt0grhu_Ga85PK=33TOht1uuuyEzC}or;h07w|Jq)FJ}4XBlnu9ai8%
z1F$B5`{z?6+^=}VX$Nq{0lFV?&99)D`3(&-d_#=FQ%01^h*B9*DkB5R$bd51K^g5J
zEHCU14vBlcBk+m1*&*U60URZOqhz2p$1K9KV<^LWWq7X)@0H=bGQ3xAD)27`dIR^B
z;l45quN5aSsWK*2#-xvl4z@F8IH!zxge3rGDzP*xc_zP!i-itzl(nomvnkkrI$rCa
zhqTTN*-Q(?`2=u20h~q#TR6%vtBf^KhWpBJUm5NzBcsaWeR9njz?$d-#3C#y9mf8#
zTL5;8!Mddkx0K<QGTc&zTgn-vM{nSlGE$`sx0K<Qu(&mx-QuDL(E531ABpfqNY24n
zVhcMeDd`QC--DPZk&>im8r|`*ew+pRPqET}3e+<T^ierZ;N@}xzkf@x<&F3ax8(I9
zCmQB<kO2Ms6oEb0JPnpk>;mg&h{$;$dA<doA#9GuVLe_K<~8uln{>lRocAG=BhF<}
zKuvxO#&O4#ZAEsF1>r{7>D;YB*O_?DS4NNm$J_lA#AJ++7-kWp8k-@sA1N4O7K@C1
z&YG`oD?N&oFWROl$R#&E=ClMqu1}2imy-~i0)Y2~)m8%NmhdhC3GWgB-X#E>X#jT$
zfJ+j<CCOk*QW+)5Tu%?M8f(}p&$!N-2e5ennfJ^y+vNKy#EkNi-vgF6v@&wESL8_k
zfrySWbPkamMgi<A1G&`wlo*vRa<O>W=V81aM?@PM%IF1QJ%m{0-$7X#L>bF)f)&^{
zgI%Z7!kAfD4k~Z3e2A=B^eih!iUge~GO3>5hkHJkj`j~b?npdbp41;0|GX!tSeO`?
z?Ed|^n8@ymB|BsGY%#JvUg3mKu8TFtiUV7lt|>iREE(aPE&ahVT>V;XTw|&Bh1Idg
zr<RC|8$VpyD>&aAdpkIpioYXgnGGFB`-JCqBz_PN_D^&A1f$lwe+&NkTj#;><j%yO
zV&RPy&Y+r-slvl6+`Y+U=hBbxdwf~gvC$dnhW~xp^<rUl-u-ZR>5y>?6KDR9uWbWk
d?`BH1TW7~w)1~4adz`lPfGdBvMMB!g{trTb&wKy?

delta 6097
zcmZ{oe{dDm700u??-3peKN5b#D76R*iNBh><RySuN{HIp387^Owv``2wmdF`02*Q1
z!dd}49WzDEgB@$Nm8mVzia=_X(t<ch3&mDZLLeYjoS~tu9bholqSAA|=WO!Iqx`{s
z_UyU$oO^!UdtY{aRIv4<g5i%u)>~Ot7XMqBDr(N1?9OefU)(smYWh8O+Y4t}E$iOy
z3QGRuyw$(;mDb(Ez2@x3h6N8j<jzZxdNP<v|NW)ej+dn#OC^sa2R@c^lV?b1Y?_ng
zr6f1`;KW#B*G#grvSy~tY<e`?r97_Qd@jneA~TJi&34&19<-b|**^rD7!og;7m5al
zFf@dM5DFE@KuI_kF`VIfiQ{Q<b^^1LygZE)X<Q-fVQ^*I2VPY;xW{o?d75E~f*6jc
z8AjA}Y&^|yJk4-i4YS>NW$LRv#^MsrH3*&AgH>UYdXwFU!<ih)>8NjN?)yMv!`uan
zk+SC4GPiNrJa-wrwJunCXME7*Y|gx?>WfEp-(ck@&JL$_(B%GBaA;km&Iz80L@I8|
z)H}M-s=dnaVgIpn`vmW9vgY^kmmG2Y;M7ajaogWCE_#2<wy70uU$ItNEkDg4)B4i1
zomOzJzteqV=G>bPMjq}H>#5Av(k<_2`*Y4){es+Mk-67r4tTFP(s65sxMlR^Gr@?1
z(OfHdWW2RLCuqyHYDQnvT+OA`Y*&m;H8mLtK#>_f(Z8<DN_p>oNs96MNu<TK1>o8O
zaBVS!wWW;OQbvlEQCrGLu`*Juj1((Z-oo{yFQ_eL)Rr)6%QefY{OyaZ5#y`G-(S!(
z?6^%}Dfq46av0wsa%R`;sq%9gtdX9KgA+%DrL>OG3wPxO2+N@G8Mu@iz%}+{)L9<t
z%#6lcQL=zK7!5Lk1jH~rg&4uCgD}pkam{@^Brj!_h>$hw&E3_$o3KXO3#<JfCakUA
z!<?-c1qF~30&fkF@YVp}odLi*1Awy!;Oqf7dkkUrl##vfgoXfYXbnj`*k($GB5X^L
zux$X_2C!`a+Xk?00NZ8=Z7ajJGFOgkUL+;nSYy1|`F&oqukmXtt$yBbF<5q!{W1~C
zNEr$GBgwHx0@x%2ne6#WjJguJ%yy7RaYPS^G8B|ic+6f{U58nlr)CIO)1Ed`Shlnd
zk)tP$3u8uM*(Q|{3FS0>*(Q%yk7HvpsVZUh%2=N=%Co6=Pivj<R%hn!5L6zBE-K5|
zG=eu0c6WYkeMFB%|M`=V?ZF#e*65+Z#M|xjj=$%klkb=OJ~ALUb<r7P`IqK6t^N<@
z*&8Fgv-sz_osmJUYga^v@%xqg%<9>}GsZ5sFZ<cqNVEUMerLKrV4pqC`xQx0WiS5^
zaAF|gaszO=0l3@%Ty6j^HvlJyAxw}mf~<@nE7L}mNSS~Q^Xv@Nyg0>nv5-3uz+C_!
zw_MXX+rPBWzR^1aeW|7{a4E8*jO_eV<k%1{r0FO_=OW4B0D#xP5UxSFM>DMDiyoB3
zd^b<QG5fcSL@_I)^n^wEGgju{0XTT}9N5DsVX3)@$Pu$^g|QOwR9lu?Bp=v8*VNJr
zox?GXUA@_Yw<6O<Pu?-jP6jp&Ak%JI$p)*sBfDe4s${g-4yGQqUC00M579xv>1g!q
zsLY!E(O7F~nHL^quYVtvW%@m;7680B07sP}jH)s!Lm8`7#u28B6)PjZ%E(BWzF_xP
zMi`Y5d|^GpX07HU?DKc5SS=1eMbB`TNrB}I`!QI~u;)b1p15YqYCgkm@OH{TxUpB5
zExYD5df`Lt6ohh!{T-}_*uS8V)I%(P4b*!Nu_6+LhuC;xB&-TTJ;bW%C7*7z_luDI
zsy8#%`nwyfLVL|xZjVv2e?PIdcXb=Ua^3uiFyg6<g*-=c^a6mh#z0x?`5M;0$fcrx
z#-q6WH;OVcz)bshDN-OGM0*o!^VAGsLHs&xq_DKWR*|DPwh3cGVcE--QB2CJe-~Dd
zYSIs=CS|N%8S7KNaxV|Q+-OZH?7bTXQ{Qt|#eyMESvv-0_Qk8Sq8}tO#d}iG1y|Ym
z`#v6d@{5_;2kIgv<(cA!{kDn4);oGm1lw0w4-^LDyX@EV@~^yAXJxg{n)q?)h)ns)
zR8w=TYQfx^`W0Vyza30!w<cIEyOwpe&azKT$kW?t?@<<X$DO0Sot`)%<y}wDurQR-
zh04+kQ`$v&9z97J5m!dUl`&9R1~y|LH--LS8}+hI)sCs;M~yNk*foD`_ZQE1hE1Dv
zRBYDLlR6vOS4Q@g;mZutNz#etnxP#sY7{-u0RVie=<qw{J2!jx@+aO#>j=WaRYvj6
zVg>F40BZvHaQi<JK1}h6H)Q~CnSh>8+$!^FW^N{!;TK}mxH1;0j72JAk;(|TG6JrQ
zZdFEa2}^G+<R$Szys*O~;*%I6UL}B63E)*SP{=WhupH;g@Ln0-E5mzbc&`lal`B$S
zj{&*t>j${648u#s2~4VtNtH2aljz{Cp$zAgF^{k;fVq%1Wma;{@?%^p$$`8x*PB<5
z`NNDe(mMock%=9rKyf|+oKFC!ks&M`Wtde)OqAiiGTc{&`^w0ua-~PEg$584{eZOy
zOG<OuKXwbiZZU*zDZ?#gxTOrYl;M_g0_o8g_@#_WQ-)j0a7$R+8o+LG(E})cuGvf?
z{3;>mVC)<mm6TjabDBAalq5a3b^3c3I)w%IcFOP^F5qMi7q4q(cKYWQI(OGB*N>c4
z%)O2TXx=9Y!W%&gSlaGsu-piq6*&(iH#_A<5XeBR{uN<fv1|6x3*QLdflzJ)e-i~%
z;8`$k2j(Bbh`De%>$v6v`oO_J)zSZyLAgS>Chr7)nw<7ScnnFxg^eRdJx+p9?+}wQ
z#(Ya;ypVb`;Uxb~C@zkzUvw!8|AM^0p+9B3nX*scX4jqcz5UJxZ{A6okoN=tZwZS-
z37|*9n*=1hNdS100C1uK+$aF9NB~zPLs*f@s7U57&<BKP30vhE9}LX{*gSyDyJo}5
zwCm7DOe@!rpM&K{Qby)Bi5xYtHBCnuI@?GN%K&zmf&A+EN{nh3xmeuc@h}d`Z$uj!
z%IF7S(QXTscS2d3L>aNz#R_bjAq>_YVazNn_o%%r&zHcZU;5h)IA1G|=^f$CkNt0c
z;#?c+{ma~m;^@(<+(W(>wcBpZ3Ge>bWn00War++2DJH6Q>~hQhUAaA|<newM>iz|K
zh8^`wuyoXRVd<jX{VYGX!5ZNm5^aR?ZDDDn4tn7>IuD_=(WhX&SX())5MHcr!dqHX
z+(Ck{DQbw(6w@KprkFu5gXv=3C_?FqA-R_SV!|#=3rnKiI(>7?-dno-cb>P-_5@<z
zKm;Pk^0OWLF6S`4QZ%ZqlCr_#c?~_oK-7XI5Z@4%K)8c75D$tr0`Xm834}*49EhhO
zlt8=y)<A5ALKuiYi+b-bjQ3?6O8i4&1maT&H4vBS<pv5w!4No%K&1Ut<UiatHQoMS
Df4%(g

diff --git a/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.json b/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.json
index 5b531d9..83cfb61 100644
--- a/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.json
+++ b/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.json
@@ -10,7 +10,7 @@
       "printedFlag": false,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "This is the initial USFM marker in any scripture text file",
+      "description": "This is the initial USFM marker in any scripture text file.",
       "nameEnglish": "File identification"
     },
     "usfm": {
@@ -49,7 +49,7 @@
       "printedFlag": false,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The contents of the status marker can be defined by the downstream system being used to track project status",
+      "description": "The contents of the status marker can be defined by the downstream system being used to track project status.",
       "nameEnglish": "Project status tracking"
     },
     "rem": {
@@ -62,7 +62,7 @@
       "printedFlag": false,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Used for adding brief comments by a translator, consultant, or support person",
+      "description": "Used for adding brief comments by a translator, consultant, or support person.",
       "nameEnglish": "Remark/Comment"
     },
     "h": {
@@ -88,7 +88,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Not for use directly within the front matter (FRT) peripheral file",
+      "description": "Not for use directly within the front matter (FRT) peripheral file.",
       "nameEnglish": "Long table of contents text"
     },
     "toc2": {
@@ -101,7 +101,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Not for use directly within the front matter (FRT) peripheral file",
+      "description": "Not for use directly within the front matter (FRT) peripheral file.",
       "nameEnglish": "Short table of contents text"
     },
     "toc3": {
@@ -114,7 +114,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Not for use directly within the front matter (FRT) peripheral file",
+      "description": "Commonly used for books names in a list of cross-reference.",
       "nameEnglish": "Book abbreviation"
     },
     "toc4": {
@@ -127,9 +127,48 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Not in USFM 2.4 but rather an addition used by Michael Kahunapule Johnson (Haiola/USFX)",
+      "description": "Not in USFM 2.4 but rather an addition used by Michael Kahunapule Johnson (Haiola/USFX).",
       "nameEnglish": "Psalm singular name"
     },
+    "toca1": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Header",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Used to specify an alternate set of table of contents texts (for example, in a language of wider communication).",
+      "nameEnglish": "Alternative language long table of contents text"
+    },
+    "toca2": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Header",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Used to specify an alternate set of table of contents texts (for example, in a language of wider communication).",
+      "nameEnglish": "Alternative language short table of contents text"
+    },
+    "toca3": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Header",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Used to specify an alternate set of table of contents texts (for example, in a language of wider communication).",
+      "nameEnglish": "Alternative language book abbreviation"
+    },
     "imt": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -244,7 +283,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Typically used for a quote from text reference",
+      "description": "Typically used for a quote from text reference.",
       "nameEnglish": "Introduction right-aligned paragraph"
     },
     "iq": {
@@ -270,7 +309,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "May be used to explicitly indicate additional white space between paragraphs",
+      "description": "May be used to explicitly indicate additional white space between paragraphs.",
       "nameEnglish": "Introduction blank line"
     },
     "ili": {
@@ -309,7 +348,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The outline entry typically ends with a range of references in parentheses",
+      "description": "The outline entry typically ends with a range of references in parentheses.",
       "nameEnglish": "Introduction outline entry"
     },
     "ior": {
@@ -322,7 +361,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "An outline entry typically ends with a range of references in parentheses. This is an optional character style for marking (and potentially formatting) these references separately",
+      "description": "An outline entry typically ends with a range of references in parentheses. This is an optional character style for marking (and potentially formatting) these references separately.",
       "nameEnglish": "Introduction outline reference range"
     },
     "iex": {
@@ -335,7 +374,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "e.g. explanation of missing book in a short Old Testament",
+      "description": "e.g. explanation of missing book in a short Old Testament.",
       "nameEnglish": "Introduction explanatory or bridge text"
     },
     "iqt": {
@@ -348,7 +387,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Scripture quotations, or other quoted text, appearing in the introduction",
+      "description": "Scripture quotations, or other quoted text, appearing in the introduction.",
       "nameEnglish": "Introduction quoted text"
     },
     "imte": {
@@ -361,7 +400,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Used to mark a major title indicating the end of the introduction",
+      "description": "Used to mark a major title indicating the end of the introduction.",
       "nameEnglish": "Introduction major title ending"
     },
     "ie": {
@@ -374,7 +413,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Optionally included to explicitly indicate the end of the introduction material",
+      "description": "Optionally included to explicitly indicate the end of the introduction material.",
       "nameEnglish": "Introduction end"
     },
     "mt": {
@@ -387,7 +426,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The key components in the title of a biblical book",
+      "description": "The key components in the title of a biblical book.",
       "nameEnglish": "Major title"
     },
     "mte": {
@@ -413,7 +452,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "These are headings before larger text divisions than what is typically considered a \"section\" division (see \\s#)",
+      "description": "These are headings before larger text divisions than what is typically considered a \"section\" division (see \\s#).",
       "nameEnglish": "Major section heading"
     },
     "mr": {
@@ -439,7 +478,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The typical (common) section division heading",
+      "description": "The typical (common) section division heading.",
       "nameEnglish": "Section heading"
     },
     "sr": {
@@ -465,7 +504,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "A reference to a parallel passage usually located under a section heading \\s#",
+      "description": "A reference to a parallel passage usually located under a section heading \\s#.",
       "nameEnglish": "Parallel passage reference(s)"
     },
     "rq": {
@@ -478,7 +517,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "A (cross) reference indicating the source text for the preceding quotation (usually an Old Testament quote). The reference(s) are intended to be formatted (typeset) within the scripture body text column, and not extracted from the text as are regular cross-references (\\x\u2026\\x*). They are also typically separated from the main text of Scripture using a different type style and alignment.",
+      "description": "A (cross) reference indicating the source text for the preceding quotation (usually an Old Testament quote). The reference(s) are intended to be formatted (typeset) within the scripture body text column, and not extracted from the text as are regular cross-references (\\x…\\x*). They are also typically separated from the main text of Scripture using a different type style and alignment.",
       "nameEnglish": "Inline quotation reference(s)"
     },
     "d": {
@@ -491,7 +530,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Sometimes used in Psalms under the section title (e.g. \"For the director of Music\")",
+      "description": "Sometimes used in Psalms under the section title (e.g. \"For the director of Music\").",
       "nameEnglish": "Descriptive title (or \"Hebrew subtitle\")"
     },
     "sp": {
@@ -504,9 +543,22 @@
       "printedFlag": false,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "(e.g. Job and Song of Songs)",
+      "description": "(e.g. Job and Song of Songs).",
       "nameEnglish": "Speaker Identification"
     },
+    "sd": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "4",
+      "nestsFlag": false,
+      "hasContent": "Never",
+      "occursIn": "Text",
+      "printedFlag": false,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Vertical space used to divide the text into sections, in a manner similar to the structure added through the use of a sequence of heading texts (i.e. \\ms# and \\s#). The purpose of \\sd# is distinct from \\b which primarily denotes whitespace (and in particular at poetic stanza breaks) and not hierarchy or division. The variable # represents the level of division being marked.",
+      "nameEnglish": "Semantic division (semantic space)"
+    },
     "c": {
       "compulsoryFlag": true,
       "level": "Newline",
@@ -517,7 +569,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "No text should follow this marker (i.e., after the chapter number? But some versions have footnotes here!",
+      "description": "No text should follow this marker (i.e., after the chapter number? But some versions have footnotes here!.",
       "nameEnglish": "Chapter number"
     },
     "ca": {
@@ -556,7 +608,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "This is a chapter marker (number, letter) which would be displayed in the published text (where the published marker is different than the \\c # used within the translation editing environment)",
+      "description": "This is a chapter marker (number, letter) which would be displayed in the published text (where the published marker is different than the \\c # used within the translation editing environment).",
       "nameEnglish": "Published chapter character"
     },
     "cd": {
@@ -569,7 +621,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "A brief description of chapter content (similar to \\d - descriptive heading, or \\iex - )",
+      "description": "A brief description of chapter content (similar to \\d - descriptive heading, or \\iex - ).",
       "nameEnglish": "Chapter description"
     },
     "v": {
@@ -582,7 +634,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Marker is followed by the verse number #, and the text of the verse",
+      "description": "Marker is followed by the verse number #, and the text of the verse.",
       "nameEnglish": "Verse number"
     },
     "va": {
@@ -608,7 +660,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "This is a verse marker (number, letter) which would be displayed in the published text (where the published marker is different than the \\v # used within the translation editing environment)",
+      "description": "This is a verse marker (number, letter) which would be displayed in the published text (where the published marker is different than the \\v # used within the translation editing environment).",
       "nameEnglish": "Published verse character"
     },
     "p": {
@@ -621,7 +673,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Followed immediately by a space and paragraph text, or by a new line and a verse marker",
+      "description": "Followed immediately by a space and paragraph text, or by a new line and a verse marker.",
       "nameEnglish": "Normal paragraph"
     },
     "m": {
@@ -637,6 +689,19 @@
       "description": "No first line indent. Followed immediately by a space and paragraph text, or by a new line and a verse marker. Usually used to resume prose at the margin (without indent) after poetry or OT quotation (i.e. continuation of the previous paragraph).",
       "nameEnglish": "Flush left (margin) paragraph"
     },
+    "po": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": null,
+      "nameEnglish": "Opening of an epistle/letter"
+    },
     "pmo": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -712,7 +777,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "No first line indent",
+      "description": "No first line indent.",
       "nameEnglish": "Indented flush left paragraph"
     },
     "nb": {
@@ -738,9 +803,22 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Similar to \"With love,\" or \"Sincerely yours,\"",
+      "description": "Similar to \"With love,\" or \"Sincerely yours,\".",
       "nameEnglish": "Closure of an epistle/letter"
     },
+    "lh": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Some lists include an introductory and concluding remark (\\lf). They are an integral part of the list content, but are not list items. A list does not require either or both of these elements.",
+      "nameEnglish": "List header"
+    },
     "li": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -751,9 +829,74 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "An out-dented paragraph meant to highlight the items of a list.\n        Lists may be used to markup the elements of a recurrent structure, such as the days within the creation account,\n            or the Decalogue (10 commandments). The variable # represents the level of indent.",
+      "description": "An out-dented paragraph meant to highlight the items of a list. Lists may be used to markup the elements of a recurrent structure, such as the days within the creation account, or the Decalogue (10 commandments). The variable # represents the level of indent.",
       "nameEnglish": "List item"
     },
+    "lf": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "Some lists include an introductory (\\lh) and concluding remark. They are an integral part of the list content, but are not list items. A list does not require either or both of these elements.",
+      "nameEnglish": "List footer"
+    },
+    "lim": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "4",
+      "nestsFlag": false,
+      "hasContent": "Sometimes",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "An out-dented paragraph meant to highlight the items of an embedded list. The variable # represents the level of indent.",
+      "nameEnglish": "Embedded list item"
+    },
+    "litl": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "Use in “accounting” lists for denoting the total component of the text within a list item (\\li). An alternative to using tables for the same content.",
+      "nameEnglish": "List entry total"
+    },
+    "lik": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": null,
+      "nameEnglish": "List entry “key” content"
+    },
+    "liv": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "2",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": null,
+      "nameEnglish": "List entry “value” content"
+    },
     "pc": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -764,7 +907,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Recommended for inscriptions",
+      "description": "Recommended for inscriptions.",
       "nameEnglish": "Centered paragraph"
     },
     "pr": {
@@ -777,7 +920,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": true,
-      "description": "\"Deprecated\" (i.e. use is strongly discouraged). Recommended alternate: \\pmr",
+      "description": "\"Deprecated\" (i.e. use is strongly discouraged). Recommended alternate: \\pmr.",
       "nameEnglish": "Right-aligned paragraph"
     },
     "ph": {
@@ -816,7 +959,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The variable # represents the level of indent (i.e. \\q1, \\q2, \\q3 etc.)",
+      "description": "The variable # represents the level of indent (i.e. \\q1, \\q2, \\q3 etc.).",
       "nameEnglish": "Poetic line"
     },
     "qr": {
@@ -829,7 +972,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Common use: Poetic refrain",
+      "description": "Common use: Poetic refrain.",
       "nameEnglish": "Right-aligned poetic line"
     },
     "qc": {
@@ -868,7 +1011,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "For example, the Aleph, Beth, etc. headings in Lamentations or Psalm 119",
+      "description": "For example, the Aleph, Beth, etc. headings in Lamentations or Psalm 119.",
       "nameEnglish": "Acrostic heading"
     },
     "qac": {
@@ -881,7 +1024,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Marker to indicate the acrostic letter within a poetic line",
+      "description": "Marker to indicate the acrostic letter within a poetic line.",
       "nameEnglish": "Acrostic letter"
     },
     "qm": {
@@ -894,9 +1037,22 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The variable # represents the level of indent (i.e. \\qm1, \\qm2 etc.)",
+      "description": "The variable # represents the level of indent (i.e. \\qm1, \\qm2 etc.).",
       "nameEnglish": "Embedded text poetic line"
     },
+    "qd": {
+      "compulsoryFlag": false,
+      "level": "Newline",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Canonical Text",
+      "printedFlag": true,
+      "closed": "No",
+      "deprecatedFlag": false,
+      "description": "A Hebrew musical performance comment similar in content to many of the Hebrew Psalm titles (\\d), but placed at the end of the poetic section.",
+      "nameEnglish": "Hebrew note"
+    },
     "tr": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -907,7 +1063,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The first \\tr initiates a new table. Rows contain column headings or cells",
+      "description": "The first \\tr initiates a new table. Rows contain column headings or cells.",
       "nameEnglish": "Table row start"
     },
     "th": {
@@ -920,7 +1076,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The variable # represents the table column number",
+      "description": "The variable # represents the table column number.",
       "nameEnglish": "Table column heading"
     },
     "thr": {
@@ -933,7 +1089,7 @@
       "printedFlag": true,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "The variable # represents the table column number",
+      "description": "The variable # represents the table column number.",
       "nameEnglish": "Right-aligned table column heading"
     },
     "tc": {
@@ -1024,7 +1180,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "A quotation from the current scripture text translation for which the note is being provided. Longer quotations are sometimes shortened using an ellipsis (i.e. suspension dots \"\u2026\"). Many existing translation texts have marked both quotations from the existing translation text, as well as alternative translations, using \\fq. An additional marker \u2013 \\fqa \u2013 is provided for marking alternative translations, and can be used to distinguish between quotations and alternatives.",
+      "description": "A quotation from the current scripture text translation for which the note is being provided. Longer quotations are sometimes shortened using an ellipsis (i.e. suspension dots \"…\"). Many existing translation texts have marked both quotations from the existing translation text, as well as alternative translations, using \\fq. An additional marker – \\fqa – is provided for marking alternative translations, and can be used to distinguish between quotations and alternatives.",
       "nameEnglish": "Footnote translation quotation"
     },
     "fqa": {
@@ -1037,7 +1193,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "Used to distinguish between a quotation of the current scripture text translation, and an alternate translation",
+      "description": "Used to distinguish between a quotation of the current scripture text translation, and an alternate translation.",
       "nameEnglish": "Footnote alternate translation"
     },
     "fl": {
@@ -1050,9 +1206,22 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "Can be used for marking or \"labeling\" a word or words which are used consistently across certain types of translation notes (such as the words \"Or\" in an alternative translation note, \"Others\", \"Heb.\", \"LXX\" etc.)",
+      "description": "Can be used for marking or \"labeling\" a word or words which are used consistently across certain types of translation notes (such as the words \"Or\" in an alternative translation note, \"Others\", \"Heb.\", \"LXX\" etc.).",
       "nameEnglish": "Footnote \"label\" text"
     },
+    "fw": {
+      "compulsoryFlag": false,
+      "level": "Note",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Footnote",
+      "printedFlag": true,
+      "closed": "Optional",
+      "deprecatedFlag": false,
+      "description": "For distinguishing a list of sigla representing witnesses in critical editions. (Apparatus entries of printed critical editions are densely packed with information. One key part is the list of witnesses supporting a specific reading. The witnesses are usually represented by sigla consisting of one character, an abbreviation, or a number. It can be very helpful to distinguish witness lists from other footnote text, which can make it simpler to introduce checking tools for these lists, and to create linking and reader helps in digital representations.)",
+      "nameEnglish": "Footnote witness list"
+    },
     "fp": {
       "compulsoryFlag": false,
       "level": "Note",
@@ -1063,7 +1232,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "Use this marker to if you need to indicate the start of a new paragraph within a footnote (uncommon in standard Bible notes)",
+      "description": "Use this marker to if you need to indicate the start of a new paragraph within a footnote (uncommon in standard Bible notes).",
       "nameEnglish": "Footnote additional paragraph"
     },
     "fv": {
@@ -1076,7 +1245,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "To mark the location of a verse number in the the text quotation or alternative translation",
+      "description": "To mark the location of a verse number in the the text quotation or alternative translation.",
       "nameEnglish": "Footnote verse number"
     },
     "fn": {
@@ -1089,7 +1258,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "To mark the location of a sequential footnote number in the the text quotation or alternative translation",
+      "description": "To mark the location of a sequential footnote number in the the text quotation or alternative translation.",
       "nameEnglish": "Footnote number"
     },
     "ft": {
@@ -1102,7 +1271,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "The essential (explanatory) text of the footnote",
+      "description": "The essential (explanatory) text of the footnote.",
       "nameEnglish": "Footnote text"
     },
     "fdc": {
@@ -1167,7 +1336,7 @@
       "printedFlag": true,
       "closed": "Optional",
       "deprecatedFlag": false,
-      "description": "A keyword from the scripture translation text which the target reference(s) also refer to",
+      "description": "A keyword from the scripture translation text which the target reference(s) also refer to.",
       "nameEnglish": "Cross-reference keyword"
     },
     "xq": {
@@ -1196,6 +1365,32 @@
       "description": "The list of target scripture locations being provided as alternate references to the text (or concept) of the origin reference. This is a list of book name abbreviations and chapter + verse references, separated by semicolons (though there may be an alternate references format for this list in different areas and countries).",
       "nameEnglish": "Target reference(s)"
     },
+    "xta": {
+      "compulsoryFlag": false,
+      "level": "Note",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Cross-reference",
+      "printedFlag": true,
+      "closed": "Optional",
+      "deprecatedFlag": false,
+      "description": "Used for marking text which should be ignored when identifying or linking to cross reference target references.",
+      "nameEnglish": "Target reference(s) extra/added text"
+    },
+    "xop": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Cross-reference",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "In some texts, the content intended to be published in the position of the cross reference origin text \\xo does not follow the typical chapter/separator/verse pattern. An origin reference following this pattern is required for validation of the cross reference location. \\xop ...\\xop* can be used in order to supply the content intended for publishing, similar to the use of \\cp and vp …vp*.",
+      "nameEnglish": "Published cross reference origin text"
+    },
     "xot": {
       "compulsoryFlag": false,
       "level": "Internal",
@@ -1206,7 +1401,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "References (or other text) between these markers is material to be included only in published editions that contain the Old Testament books. (optional)",
+      "description": "References (or other text) between these markers is material to be included only in published editions that contain the Old Testament books. (optional).",
       "nameEnglish": "Old Testament reference(s)"
     },
     "xnt": {
@@ -1219,7 +1414,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "References (or other text) between these markers is material to be included only in published editions that contain the New Testament books. (optional)",
+      "description": "References (or other text) between these markers is material to be included only in published editions that contain the New Testament books. (optional).",
       "nameEnglish": "New Testament reference(s)"
     },
     "xdc": {
@@ -1232,7 +1427,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "References (or other text) between these markers is material to be included only in published editions that contain the Deuterocanonical books. (optional)",
+      "description": "References (or other text) between these markers is material to be included only in published editions that contain the Deuterocanonical books. (optional).",
       "nameEnglish": "Deuterocanon reference(s)"
     },
     "add": {
@@ -1245,7 +1440,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "A translator's explanation; words added by the translator for clarity \u2013 text which is not literally a part of the original language, but which was supplied to make the meaning of the original clear",
+      "description": "A translator's explanation; words added by the translator for clarity – text which is not literally a part of the original language, but which was supplied to make the meaning of the original clear.",
       "nameEnglish": "Translator's addition"
     },
     "bk": {
@@ -1271,7 +1466,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Deuterocanonical/LXX additions or insertions in the Protocanonical text",
+      "description": "Deuterocanonical/LXX additions or insertions in the Protocanonical text.",
       "nameEnglish": "Deuterocanonical addition"
     },
     "k": {
@@ -1323,7 +1518,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "i.e. in \"1st\"",
+      "description": "i.e. in \"1st\".",
       "nameEnglish": "Ordinal number ending"
     },
     "pn": {
@@ -1339,6 +1534,19 @@
       "description": null,
       "nameEnglish": "Proper name"
     },
+    "png": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": true,
+      "hasContent": "Always",
+      "occursIn": "Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "Particularly in China, there are various groups which have the practice of distinguishing visually between proper names of people and proper names of geographic places in published texts. Published materials may use a single underline to present proper names of people, and double underline to present proper names of geographic places. Alternatively, dotted underlines have been used for geographic proper names. Special presentation for names can assist readers to know what the text means, especially readers who may struggle with reading skills and may be overloaded by the transliterated names.",
+      "nameEnglish": "Geographic proper name"
+    },
     "qt": {
       "compulsoryFlag": false,
       "level": "Internal",
@@ -1349,7 +1557,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Old Testament quotations in the New Testament, or other quotations",
+      "description": "Old Testament quotations in the New Testament, or other quotations.",
       "nameEnglish": "Quoted text"
     },
     "sig": {
@@ -1362,7 +1570,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "of the author of an epistle/letter",
+      "description": "of the author of an epistle/letter.",
       "nameEnglish": "Signature"
     },
     "sls": {
@@ -1388,7 +1596,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Or foreign words",
+      "description": "Or foreign words.",
       "nameEnglish": "Transliterated word(s)"
     },
     "wj": {
@@ -1482,6 +1690,19 @@
       "description": null,
       "nameEnglish": "Small-caps text"
     },
+    "sup": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": true,
+      "hasContent": "Always",
+      "occursIn": "Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "Typically for use in critical edition footnotes.",
+      "nameEnglish": "Superscript text"
+    },
     "pb": {
       "compulsoryFlag": false,
       "level": "Newline",
@@ -1518,9 +1739,22 @@
       "printedFlag": false,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Surround word(s) with this markup to indicate that it should appear in the subject index",
+      "description": "Surround word(s) with this markup to indicate that it should appear in the subject index.",
       "nameEnglish": "Subject index entry"
     },
+    "rb": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "Used to mark the base text being annotated with ruby characters.",
+      "nameEnglish": "Ruby glossing"
+    },
     "pro": {
       "compulsoryFlag": false,
       "level": "Internal",
@@ -1531,7 +1765,7 @@
       "printedFlag": false,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Used for Chinese/Japanese/Korean texts",
+      "description": "Used for Chinese/Japanese/Korean texts.",
       "nameEnglish": "Pronunciation information"
     },
     "w": {
@@ -1544,7 +1778,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Surround word(s) with this markup to indicate that it should appear in the word list",
+      "description": "Surround word(s) with this markup to indicate that it should appear in the word list.",
       "nameEnglish": "Wordlist/glossary/dictionary entry"
     },
     "wg": {
@@ -1557,7 +1791,7 @@
       "printedFlag": false,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Surround word(s) with this markup to indicate that it should appear in the Greek word list",
+      "description": "Surround word(s) with this markup to indicate that it should appear in the Greek word list.",
       "nameEnglish": "Greek wordlist entry"
     },
     "wh": {
@@ -1570,9 +1804,22 @@
       "printedFlag": false,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Surround word(s) with this markup to indicate that it should appear in the Hebrew word list",
+      "description": "Surround word(s) with this markup to indicate that it should appear in the Hebrew word list.",
       "nameEnglish": "Hebrew wordlist entry"
     },
+    "wa": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Text",
+      "printedFlag": false,
+      "closed": "Always",
+      "deprecatedFlag": false,
+      "description": "Surround word(s) with this markup to indicate that it should appear in the Aramaic word list.",
+      "nameEnglish": "Aramaic wordlist entry"
+    },
     "qt-s": {
       "compulsoryFlag": false,
       "level": "Internal",
@@ -1609,7 +1856,7 @@
       "printedFlag": false,
       "closed": "No",
       "deprecatedFlag": false,
-      "description": "Translator\u2019s section milestone. For identifying a section (chunk) of text suitable for translating at one time.",
+      "description": "Translator’s section milestone. For identifying a section (chunk) of text suitable for translating at one time.",
       "nameEnglish": "Translator's section"
     },
     "ts-s": {
@@ -1622,7 +1869,7 @@
       "printedFlag": false,
       "closed": "Self",
       "deprecatedFlag": false,
-      "description": "Translator\u2019s section start milestone. For identifying a section (chunk) of text suitable for translating at one time.",
+      "description": "Translator’s section start milestone. For identifying a section (chunk) of text suitable for translating at one time.",
       "nameEnglish": "Translator's section start"
     },
     "ts-e": {
@@ -1635,7 +1882,7 @@
       "printedFlag": false,
       "closed": "Self",
       "deprecatedFlag": false,
-      "description": "Translator\u2019s section end milestone. For identifying a section (chunk) of text suitable for translating at one time.",
+      "description": "Translator’s section end milestone. For identifying a section (chunk) of text suitable for translating at one time.",
       "nameEnglish": "Translator's section end"
     },
     "ef": {
@@ -1700,7 +1947,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": false,
-      "description": "Categories can optionally be assigned to extended study notes or sidebars by supplying a category tag (name) inside of opening and closing \\cat \u2026 \\cat* markers. Category tags should be restricted to alpha-numeric characters. A list of category tags are defined individually and uniquely for each study Bible project.",
+      "description": "Categories can optionally be assigned to extended study notes or sidebars by supplying a category tag (name) inside of opening and closing \\cat … \\cat* markers. Category tags should be restricted to alpha-numeric characters. A list of category tags are defined individually and uniquely for each study Bible project.",
       "nameEnglish": "Category tag"
     },
     "periph": {
@@ -1752,7 +1999,7 @@
       "printedFlag": true,
       "closed": "Always",
       "deprecatedFlag": true,
-      "description": "\"Deprecated\" (i.e. use is strongly discouraged) in 2004 for USFM 2.0. Was really a duplicate of \\w \u2026 \\w* used for marking words in the Scripture text which are included in the wordlist.",
+      "description": "\"Deprecated\" (i.e. use is strongly discouraged) in 2004 for USFM 2.0. Was really a duplicate of \\w … \\w* used for marking words in the Scripture text which are included in the wordlist.",
       "nameEnglish": "WR"
     },
     "ps": {
@@ -1767,6 +2014,19 @@
       "deprecatedFlag": true,
       "description": "\"Deprecated\" (i.e. use is strongly discouraged) in 2004 for USFM 2.0. This was used in conjunction with \\nb to indicate that the paragraph spans the chapter boundary. It should be sufficient to just start the new chapter with \\nb and use the appropriate paragraph marker for the previous chapter (\\p, \\m, etc.).",
       "nameEnglish": "Span paragraph"
+    },
+    "jmp": {
+      "compulsoryFlag": false,
+      "level": "Internal",
+      "highestNumberSuffix": "None",
+      "nestsFlag": false,
+      "hasContent": "Always",
+      "occursIn": "Text",
+      "printedFlag": true,
+      "closed": "Always",
+      "deprecatedFlag": true,
+      "description": "Available for associating linking attributes to a span of text when no other character level markup is already applied to the text at this location.",
+      "nameEnglish": "Link text"
     }
   },
   "numberedMarkerList": [
@@ -1780,6 +2040,9 @@
     "toc2",
     "toc3",
     "toc4",
+    "toca1",
+    "toca2",
+    "toca3",
     "imt1",
     "imt2",
     "imt3",
@@ -1839,6 +2102,10 @@
     "rq",
     "d",
     "sp",
+    "sd1",
+    "sd2",
+    "sd3",
+    "sd4",
     "c",
     "ca",
     "cl",
@@ -1849,6 +2116,7 @@
     "vp",
     "p",
     "m",
+    "po",
     "pmo",
     "pm",
     "pmc",
@@ -1860,10 +2128,20 @@
     "mi",
     "nb",
     "cls",
+    "lh",
     "li1",
     "li2",
     "li3",
     "li4",
+    "lf",
+    "lim1",
+    "lim2",
+    "lim3",
+    "lim4",
+    "litl",
+    "lik",
+    "liv1",
+    "liv2",
     "pc",
     "pr",
     "ph1",
@@ -1884,6 +2162,7 @@
     "qm2",
     "qm3",
     "qm4",
+    "qd",
     "tr",
     "th1",
     "th2",
@@ -1908,6 +2187,7 @@
     "fq",
     "fqa",
     "fl",
+    "fw",
     "fp",
     "fv",
     "fn",
@@ -1919,6 +2199,8 @@
     "xk",
     "xq",
     "xt",
+    "xta",
+    "xop",
     "xot",
     "xnt",
     "xdc",
@@ -1930,6 +2212,7 @@
     "nd",
     "ord",
     "pn",
+    "png",
     "qt",
     "sig",
     "sls",
@@ -1941,13 +2224,16 @@
     "bdit",
     "no",
     "sc",
+    "sup",
     "pb",
     "fig",
     "ndx",
+    "rb",
     "pro",
     "w",
     "wg",
     "wh",
+    "wa",
     "qt1-s",
     "qt2-s",
     "qt3-s",
@@ -1968,7 +2254,8 @@
     "pdi",
     "pde",
     "wr",
-    "ps"
+    "ps",
+    "jmp"
   ],
   "combinedMarkerDict": {
     "id": "id",
@@ -1981,6 +2268,9 @@
     "toc2": "toc2",
     "toc3": "toc3",
     "toc4": "toc4",
+    "toca1": "toca1",
+    "toca2": "toca2",
+    "toca3": "toca3",
     "imt": "imt",
     "imt1": "imt",
     "imt2": "imt",
@@ -2050,6 +2340,11 @@
     "rq": "rq",
     "d": "d",
     "sp": "sp",
+    "sd": "sd",
+    "sd1": "sd",
+    "sd2": "sd",
+    "sd3": "sd",
+    "sd4": "sd",
     "c": "c",
     "ca": "ca",
     "cl": "cl",
@@ -2060,6 +2355,7 @@
     "vp": "vp",
     "p": "p",
     "m": "m",
+    "po": "po",
     "pmo": "pmo",
     "pm": "pm",
     "pmc": "pmc",
@@ -2072,11 +2368,23 @@
     "mi": "mi",
     "nb": "nb",
     "cls": "cls",
+    "lh": "lh",
     "li": "li",
     "li1": "li",
     "li2": "li",
     "li3": "li",
     "li4": "li",
+    "lf": "lf",
+    "lim": "lim",
+    "lim1": "lim",
+    "lim2": "lim",
+    "lim3": "lim",
+    "lim4": "lim",
+    "litl": "litl",
+    "lik": "lik",
+    "liv": "liv",
+    "liv1": "liv",
+    "liv2": "liv",
     "pc": "pc",
     "pr": "pr",
     "ph": "ph",
@@ -2100,6 +2408,7 @@
     "qm2": "qm",
     "qm3": "qm",
     "qm4": "qm",
+    "qd": "qd",
     "tr": "tr",
     "th": "th",
     "th1": "th",
@@ -2128,6 +2437,7 @@
     "fq": "fq",
     "fqa": "fqa",
     "fl": "fl",
+    "fw": "fw",
     "fp": "fp",
     "fv": "fv",
     "fn": "fn",
@@ -2139,6 +2449,8 @@
     "xk": "xk",
     "xq": "xq",
     "xt": "xt",
+    "xta": "xta",
+    "xop": "xop",
     "xot": "xot",
     "xnt": "xnt",
     "xdc": "xdc",
@@ -2150,6 +2462,7 @@
     "nd": "nd",
     "ord": "ord",
     "pn": "pn",
+    "png": "png",
     "qt": "qt",
     "sig": "sig",
     "sls": "sls",
@@ -2161,13 +2474,16 @@
     "bdit": "bdit",
     "no": "no",
     "sc": "sc",
+    "sup": "sup",
     "pb": "pb",
     "fig": "fig",
     "ndx": "ndx",
+    "rb": "rb",
     "pro": "pro",
     "w": "w",
     "wg": "wg",
     "wh": "wh",
+    "wa": "wa",
     "qt-s": "qt-s",
     "qt1-s": "qt-s",
     "qt2-s": "qt-s",
@@ -2190,7 +2506,8 @@
     "pdi": "pdi",
     "pde": "pde",
     "wr": "wr",
-    "ps": "ps"
+    "ps": "ps",
+    "jmp": "jmp"
   },
   "conversionDict": {
     "imt": "imt1",
@@ -2203,8 +2520,11 @@
     "mte": "mte1",
     "ms": "ms1",
     "s": "s1",
+    "sd": "sd1",
     "pi": "pi1",
     "li": "li1",
+    "lim": "lim1",
+    "liv": "liv1",
     "ph": "ph1",
     "q": "q1",
     "qm": "qm1",
@@ -2256,6 +2576,10 @@
     "s2": "s",
     "s3": "s",
     "s4": "s",
+    "sd1": "sd",
+    "sd2": "sd",
+    "sd3": "sd",
+    "sd4": "sd",
     "pi1": "pi",
     "pi2": "pi",
     "pi3": "pi",
@@ -2264,6 +2588,12 @@
     "li2": "li",
     "li3": "li",
     "li4": "li",
+    "lim1": "lim",
+    "lim2": "lim",
+    "lim3": "lim",
+    "lim4": "lim",
+    "liv1": "liv",
+    "liv2": "liv",
     "ph1": "ph",
     "ph2": "ph",
     "ph3": "ph",
@@ -2312,6 +2642,9 @@
     "toc2",
     "toc3",
     "toc4",
+    "toca1",
+    "toca2",
+    "toca3",
     "imt",
     "is",
     "ip",
@@ -2338,6 +2671,7 @@
     "r",
     "d",
     "sp",
+    "sd",
     "c",
     "cl",
     "cp",
@@ -2345,6 +2679,7 @@
     "v",
     "p",
     "m",
+    "po",
     "pmo",
     "pm",
     "pmc",
@@ -2353,7 +2688,10 @@
     "mi",
     "nb",
     "cls",
+    "lh",
     "li",
+    "lf",
+    "lim",
     "pc",
     "pr",
     "ph",
@@ -2363,6 +2701,7 @@
     "qc",
     "qa",
     "qm",
+    "qd",
     "tr",
     "lit",
     "pb",
@@ -2386,6 +2725,9 @@
     "toc2",
     "toc3",
     "toc4",
+    "toca1",
+    "toca2",
+    "toca3",
     "imt1",
     "imt2",
     "imt3",
@@ -2442,6 +2784,10 @@
     "r",
     "d",
     "sp",
+    "sd1",
+    "sd2",
+    "sd3",
+    "sd4",
     "c",
     "cl",
     "cp",
@@ -2449,6 +2795,7 @@
     "v",
     "p",
     "m",
+    "po",
     "pmo",
     "pm",
     "pmc",
@@ -2460,10 +2807,16 @@
     "mi",
     "nb",
     "cls",
+    "lh",
     "li1",
     "li2",
     "li3",
     "li4",
+    "lf",
+    "lim1",
+    "lim2",
+    "lim3",
+    "lim4",
     "pc",
     "pr",
     "ph1",
@@ -2482,6 +2835,7 @@
     "qm2",
     "qm3",
     "qm4",
+    "qd",
     "tr",
     "lit",
     "pb",
@@ -2505,6 +2859,9 @@
     "toc2",
     "toc3",
     "toc4",
+    "toca1",
+    "toca2",
+    "toca3",
     "imt",
     "imt1",
     "imt2",
@@ -2571,6 +2928,11 @@
     "r",
     "d",
     "sp",
+    "sd",
+    "sd1",
+    "sd2",
+    "sd3",
+    "sd4",
     "c",
     "cl",
     "cp",
@@ -2578,6 +2940,7 @@
     "v",
     "p",
     "m",
+    "po",
     "pmo",
     "pm",
     "pmc",
@@ -2590,11 +2953,18 @@
     "mi",
     "nb",
     "cls",
+    "lh",
     "li",
     "li1",
     "li2",
     "li3",
     "li4",
+    "lf",
+    "lim",
+    "lim1",
+    "lim2",
+    "lim3",
+    "lim4",
     "pc",
     "pr",
     "ph",
@@ -2616,6 +2986,7 @@
     "qm2",
     "qm3",
     "qm4",
+    "qd",
     "tr",
     "lit",
     "pb",
@@ -2635,12 +3006,16 @@
     "ca",
     "va",
     "vp",
+    "litl",
+    "lik",
+    "liv",
     "qs",
     "qac",
     "th",
     "thr",
     "tc",
     "tcr",
+    "xop",
     "xot",
     "xnt",
     "xdc",
@@ -2651,6 +3026,7 @@
     "nd",
     "ord",
     "pn",
+    "png",
     "qt",
     "sig",
     "sls",
@@ -2662,18 +3038,22 @@
     "bdit",
     "no",
     "sc",
+    "sup",
     "ndx",
+    "rb",
     "pro",
     "w",
     "wg",
     "wh",
+    "wa",
     "qt-s",
     "qt-e",
     "ef",
     "fs",
     "ex",
     "cat",
-    "wr"
+    "wr",
+    "jmp"
   ],
   "numberedInternalMarkersList": [
     "ior",
@@ -2682,6 +3062,10 @@
     "ca",
     "va",
     "vp",
+    "litl",
+    "lik",
+    "liv1",
+    "liv2",
     "qs",
     "qac",
     "th1",
@@ -2707,6 +3091,7 @@
     "fq",
     "fqa",
     "fl",
+    "fw",
     "fp",
     "fv",
     "fn",
@@ -2718,6 +3103,8 @@
     "xk",
     "xq",
     "xt",
+    "xta",
+    "xop",
     "xot",
     "xnt",
     "xdc",
@@ -2728,6 +3115,7 @@
     "nd",
     "ord",
     "pn",
+    "png",
     "qt",
     "sig",
     "sls",
@@ -2739,12 +3127,15 @@
     "bdit",
     "no",
     "sc",
+    "sup",
     "fig",
     "ndx",
+    "rb",
     "pro",
     "w",
     "wg",
     "wh",
+    "wa",
     "qt1-s",
     "qt2-s",
     "qt3-s",
@@ -2757,9 +3148,12 @@
     "fs",
     "ex",
     "cat",
-    "wr"
+    "wr",
+    "jmp"
   ],
   "combinedInternalMarkersList": [
+    "liv1",
+    "liv2",
     "th1",
     "th2",
     "th3",
@@ -2793,6 +3187,7 @@
     "fq",
     "fqa",
     "fl",
+    "fw",
     "fp",
     "fv",
     "fn",
@@ -2804,6 +3199,7 @@
     "xk",
     "xq",
     "xt",
+    "xta",
     "fig"
   ],
   "deprecatedMarkersList": [
@@ -2816,6 +3212,7 @@
     "pdi",
     "pde",
     "wr",
-    "ps"
+    "ps",
+    "jmp"
   ]
 }
\ No newline at end of file
diff --git a/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.pickle b/BibleOrgSys/DataFiles/DerivedFiles/USFM3Markers_Tables.pickle
index 0a04f53dbb44c7a4a73b91b7085b2939afd58636..9a18f313aa96cdd3bad5e1e07655d265d9d11f31 100644
GIT binary patch
delta 12078
zcmc&)32+=$dZtH`55PAv;6rYF${>#|85<jOtnUL~Alt}Z0q&V;se3dtJ?@^7EDSV9
z%;n)QPb^>{i`f8+cL^+_l2q6OD3T>*mP)9CRG@aDsM@ea!iJD4LPFJUzVGi*KVciA
zt);T%^56fwe(&|`_rCx8{=e<_A4vT8^+er`wf8qad9dysW7)y?FEo<<lZ=0=G4kr)
zYjZ|YwbePsX7zI2CitU=y=<&h%_CNvn(TAxE0Z^Rg--SQ@CLPX_?qYjI=wQyaM7}r
zUOw*?a=m6burp?d=bI_d>k7<*mA3=aEtr;>bAyuUb(m@23xavR-C_H7A#EpBFd}WV
zsec}EB_>OboII?q<fW}<b#TP$u(+Mml{_;j+G)3=*R(KGu4MZKt7MyjEfbckRL+)}
zy+X+@lmfG4?}csTGVHxpzL>L{s%x+con@<2diS^)+c(o#c)8%Ft&-~%=E`d>SYCaC
zJGR?4a|1(i(aTSY*4Of<TVHd$zEOkM7pT{UH$;nD_@`Uk?09iA2QQ9jFs)R|x4T{0
z>b`QN#?6<o(24!&kz)*FzuJ0QOaBw6rfZD(YUJo7z;MCn)lsv0cC>43QfH6Zh*o>d
z(rW9((?+ZJ#@sKzl695KwmG(P#;sHTF}B-yL3NDlNAI)8?=vn`_m5u+|Bdmt7#q|T
z6V}6jc*3%1T%xi<4L@T!n%13BHnystp0Ne~sQPBy-kq4Nt{OHfQCX<m`WB9=pNHnd
zljf*T>OYS>V~-klW)V?z)0yk}7PyIy|8>?pG?{0A-#{?^!z2V#|HR2131geOerhZ3
z|Krr|OQ$y4$<Cy?!Ak+w8M77mB8qtpA|y_1E!tKWP`W+?T)Q1rm}2h|K?Yk_pK$go
ztLrRPu}6h%dyP|0*<t%7^vWS%th60PBf=-+b_4BZ$-!U527-YxWv2=Hpc)%_t5CqB
z0yppGET2Kg?m@{fr%PquHmyvCvFP|-xzmw*h;=U5!c2S0A%mGe9ox#dc$I1px=A}}
zw&#Nx@{;YrjJZh@2W1w^e$k62Xb&<oOgF$PgOXcFm&^{|%bV>fv&V7Mj#>2Gyyd$f
z7wm#p0-vBA7kR@*ZXNigxWeL_m$`JSWEMRezp#3%aIIwmc2-v~S5|--Ovkl-%TGJK
zCK!Ty6JQ^brZSc_sMDK9UOdobrfj|mp5A3=gd3)}+Sn&f9rtMr2AX6=bJYzEn~bb_
zy}`wyFPipBjq$SjeELf`^uL+m8avhWnQic|ooO4Z)cZ46qSK67cNoUc)HAbxiW^;X
z0<htGbHIlEiyLn>Y7#{cM?Ft{Ja@*-DO-wmflK1H7fic|9n0DCb9M=w$dD@LrE~ws
za~~rZztyrpy?<t{dgZ)d8ujXMV}1V%O=s5NDX-55KGpxspKUlY`P9W`_)@Ev2j5{z
zGIlyw24e6KV8!<`0D<R|e>0#=xyfbtcy+(aY;4bUM8}FAgo=!^JADALh;!j`2_}&M
z3@1xBnW=I~dh<kZrwy<y+4&%8E{{59JRCJ|`hb^<X>Avi_&l?eS8}S80z!7q&Xf1$
zgihN?ogoNiM-n-AAW*Owb$2)u+G<p8!3y<P3-+jm&2}Q!@ds@HUe$?!blf%wuK$P)
z*!fLvK!=A&5lH0R{Gc5m9E`onTd;H-@RLv364gAI82@9ZQS8UB9(+@d1^}zgxuu*k
zCL{sJiR!!yMu!hUq8Wf6-1vx<PJ3kpN1^kB8y~F#i5e_nOSljNC9ecjKz55>0f#mK
z4WXqT9I(z6hz3H-1+<oH-FKlYAg6L5GhRUP4<zH@>;du(0+a|7IE)oI;1|Fvk7ktQ
z+^+Z?y4uIhoHD2r-lNOz<qK4&i3W6Iz?li7MZG(>QDMxihA)rlwsK|r%cBy-G&X*^
zdTvhAn5zD*c?u$KcuO8aw$*J`Pqs|P@0VMaNSL1ApIkUUp(EB<S0$q{>ZL`K(D9u`
zX=AdwWHJ2yw#C0QjP>fuCF^kGyGshjMQZfYW$@Q8U4SW0U)*f09yEO9n0#}S*}f;=
zV%nv2a&A(6vUGZ44+UhNLg44_T5hhh!I3>?9=l5QDB3;_4onA1XNJUs8W08?P<3Z`
z4Cn(Ejl#P+$=1Ni<;@a+f`e&n&&-WNy_ka{Wz;znCo~MOb0k1f*j5K4-qolJHyD?x
zHrS+k{6Y%xsEeAg^~SPhw6rX{;Fy-zmaUSOe-Zm!{{t5{4Ks@B)s-H)FI*KEZ>y(P
zy#@ce)zgd~b@|%$VOvw;lvCCS`%`l|%WeSVbq-2X1Gh70fqII*9pLqO6Ywn9L4dd7
z9{6sgv~~s#WHf0uE-!-ZtWr5J2{;!Wu``e_z!9`LXh0|<g#8d4femegnn7gv3<uN8
z?z2<U+)}VjATlCSsANo}m|L$XC>M(!6j0tF%9bHg&^>B#q`11X6@pF6LD|aT!SO5N
z>8V~EGv6C09Doxz9Ug;7HPa4WEe%d-BE1hz<(kOImRTr+F#M#szGSA+BW0W2HiFKv
zbH$Ewj#!EGoqHWR14|#E2`WBF9rRA-0t%u`rKy?&aK=1RA@C4^h>Tt`lmTtx^6YdM
zms|3@T+9ccCQ=(x910hfkj9Q+>g_qVAidelO~Q0ssGMxZ?R3de@y1BP8YJhE7VFmx
zEU&tq@&Ir|qN508Z7{A^AFjR*SWB<*jdu0O+DYn@HOwxX*JhCwJhB#9fvQ`VF`89&
z-2w#jp>_M}j9qHt=AHQAZ5~&XC|T;@=F3A*Y9I0^HCA4Ysaup21&&wF;k>XRodwS)
za2y+|8|8_;a&A7B7QLmsII1qZQnl(bOP1e>@+oeJ#B=7hxcQu@JZnVSgva{U{A&J(
zA7sS6UQsCYxyxsUZFeB^TwgE)<`0tgH3>=wXoC1JNb=}$#l><8hvHz(2qU5yd7y;Q
z0FOw8sFwzK;Y84tuiw5GI2uR{I=o!Y>j@)W=`9L%0jEWvbbeq<EPDQYzz{enTFj9U
zPmq%8gz?J*bDT)_*g=R@`!Xl3<{nW^3zBy;f`-9M4F~UQ4z+6(w^(V>OeT}Oo;wf{
zNSWoeJ)e-nxiD@KgxrSXwu@(9-7GAvDP~{{WB+RU-M%bc6nJ+RA;M2~7ta+!owYUI
z=9BEF+IRUb<3aU#>t40_ifMpm{)*n}?`vB5`-awD<6+!C1pmHmdE>SFw*MUN&$l0i
zM5!HX0or$V{I@Y?wB-3XrRmK<X?jw<*LH19O|hU3TBh3C-WaxB3BuhP=jeE4^j!(g
zwFE0n8u7OqdA<kw>_m})V2rTtSX6xCgaqV9Rfgsg;ccYw5u2s#Qjd*DDEb~mtor@I
z>j)uf9#}&*>X>_Gr|ltCEuz>kMWloUG)e{0NmK7<9u(rc7HB4K$rlfnKsX^xUk1*7
zgq@@)Rq5bb!oiEFt|cO+jE8gj>VaPxcicjO=7Db&-4Kx`ga%Na(aQ)-*}YWAJrVE`
zRD<Ukv`<MB^=29`h82tGMNsF6=sONs*a|2NhzpV?)W|ct3SJM63RM>mNuo4wTdXTl
zqse@^-Y_1}<1lG}&Y-aD<d%uzRfWn7y4)Q0m9)%GU<(i7oAdB6Q73tVkI9jTqK4zU
z%F+b#6W0zpNc~<UXSHkR27Ix4V&@8g_rsmn7&Fw`UDE+xch`4}@#D5oc6=LLYW5&B
zgJl2M_P<Wl)*w1nbNkvAl?B@(dI4^^9Sl9-cd(>0=wt1Q*mP`b8OIl(SFxmicJ=R3
z{Ef3NQ>X48HBHt#p|zaKA_u}$8GEnf482^epAu?a&@e*XxMO_lx3*V5f=R8#9Y|St
zzHD?<prUd|R?W?bHnR*JkM%lQ%cv{Z*qMV00I6#J?k&a~74Dvm?Ra8$m$4ly+XmmZ
z%IcBSMm0M%2EP`iI-y})^KVjP@%!`C)S5((C98YMnq*wXdkxEdD{mooxO1Y0(P31Z
zRZTjHyzKC#sr_5hwb2)nscK95^#1EJ-y2m|smbOeC5c{lba=Znq0+a!+rn1}1_rkq
znDc;3Nk;}W4Rr3iC?Sz#0fPv@BEZQ+G!jX`z2H?dig+u`oQ*IMJuMf>?pBV#L(K*f
zcCme!sWAqz02-ZQN~ivh+z3sTho}aB{xGN0DLTDslfP)xea<20ap#Ehyz{rtE9xHq
zY~xM!v_EzF2l&wCHTTiBh+Qc5{66PX=ZkDDq*MLcH|w(X^o9qU&RPryA9ye%5nx0j
zz<@+>exKSGoV~kJ6J$79kl|!OhLZ)E^ZT;bVN`ZM&D}H)&^$)-G|lrgFVeh9^9!1{
zX?{iXuQb1<`AoeQOc^%}T%8?5a~91x3H3=Z`O+5nECBO(J}+1RFIWLDSi(wn-dOF`
z9rfyN>C3jW-B#mDQ;cqvES*(<8yoJWd64EX%@OtO(v)E@(tTC!E#<<G>3&A@dzuk7
zFym+@(afM}qFF?93C&uXtu#AnQZ!vOC7SDLZl$@0=0TdnG)HLqX?{%ecQkL*gs^YZ
zeUIitnonpxr!i__M$(L@nM^a2W**IAnoDTb&}^pJL31@t2Tg&dhbE-CjpkmOhiD#$
zIX(LWx-ZcDL>(=!TKP8J_h^1Y^Pe>TOH)$^b2?2uO#{trn)x(KXqMA#s8gG|*M>kW
zFpEDoJ2z*y;|4A}qRW-hrA;o*0p~z=C*1?tUD4&+(WPB3&VBfENKjAQ6ZynG(2qYy
zouk>S*zIWc>gaM!blDxs)p-+t-gVy1TKxHLHWgjc(Iq1n=L7ut$oVL1^XEs|j_A@E
zT^zX}h!95AK$2+6jv|o7xabmj+1Tsi^P|RG>@oHv0J9DB#N>Hbyh7}Gu~&?}*&HEe
z58K4^V=sukQq{|yl1*}mm@*s1>yEvi*xMU><b<r4OX-Q}<z4ZvjlF%bcb#}@&)((o
z!X*y7fo<aHwj1L%VGvCtnoI8HSRoY6Dw<j}zi5)tOar<Jt9+wLM>CJ6AI(9(<>Nk!
z&F|=mxrs{^@8;OMCHDR-_JqDPhlQHSs&s~F&LO9q8=L(cEI)6Jz1w2%_Sho_X2mR{
zC*}^`74Od2I}m%7Ix>me7JiILQkXKkjnjy^i$lb_JNAS*Bl=`No2C$(d)QBY-Wz)d
zWADBJZ&S9LL&Svi#3<etuP^rQkG=22o^Z7$?0eNU`<lWBc)Oo-Js5ir#onRVdy!ql
zyh=~ZFX)MRnEk|iB=#PSy+4n=w>Uz~ciHw<f;;+H<ia}~dymK7FF8ca_t+-hU&P)M
zvG-)`{hA}hJjFKgz8`x}$KDZmVRTy*N{q;q)+#MnTD7!vY5me7rj<;~nbtHdY>~Q!
z)F7>KTIjUeY01;Nr^Qbzpq4?cg<24`Dr#wjJ|d#u;1a}$NNT0ja;Y^_3#V33EumUR
zwU}x})v~I!HPi~LWmapg7F?~mT6(qqY7y2-tmRm1vKHp5Iun1?=t!cqPDf(R8$Y4>
z``G+|@R6TCjJ;=K?=NHT4UQ1=EZf9;F7|#j;Dy=e2i&Y=1v)j*`GHOnbf%!w1)VeK
z#6f2dI)%`Agia=wh<Zp$A!Y*?LsPDd#zzc(Z$UA%%1xL0uJ3DfZm!hgUwWJSoCC;#
zk=8m#aovOKySR~a;d~UO$fC-XI&`+1`$T#xH5@3KTB(hiDV8DHF_DO$WXd9HOoY)$
zfxth6VO}A0e(i@#0<I>nLbCLcq6&SYw*!}CSV>@E!fchAJxFwgo+>pZ-X{Z9YVi-C
z&2##MQP7@7JE;QgX&*k%xKg*L)I2Zf%f6vLy<t{(k__u)+0|EMPuOLoR2DBMPMVHQ
zmUvdkouX_hd%}zeJ&sL?hMN3*eaaI?8PQM^ouMQ(ObD*$qKA;w+$2~XLeenQ4B+e3
z9?KH3ACPl!rPlKyDt30L;yeT$4n?MiDz#OC#Y>!AUx%uyPf7N3QZbFRbf^q@QeM=w
zSgwpO*ggCZr*7FlizN@sodZ&^#6>!a6xJZDF}{cbK<a=7;!DzaNz8TDy_Pq&(xhm*
zXas_iH0vx`=f>4yTWU%6{uPbRbS23ZZ0c-Pr>K&S>ReN&fs*p+bWSH{Qb@~r>zs=!
zd|p&)YLyUe5aQQNFZ{l|POZA-f-w55A;qDThFKPdS(b%DSyB#WSqx^S6#UYs4<Rlo
z`m)!s$8H$sO`$BQ^0H~RN`?1<kd@SRSypusOMQ_Ig{HD>>7tQBP0mJmN$N3=H>3&^
z4w8yXiY=+Lgl?pyl4?o{DLF{t7pa$|RFW#`xO3%s3BgFgBn%>D($}3chQ0k&$9xml
zD|O2)^rTuj(W#S%!mLywQh-S9At(^$xs!vXx~S08pb%=2IzUPQ$^Hc+!X=X9-_H?}
z*&hQLp%KaCC5b<DF*|-4LVpN?y!}h75qBa4RX-}66hqaI2gjkP`n}*d996#&Xe5OL
zP}1K4P6Q_j^%G%A!v93T5=!_=bj5XfnEg78VTXk~zG<8ZokXfP1hfgqi1eKZaUx_V
zhn;ZI@z{gvX@VL80)@1Wh2bB8!jOrnU75gtdc=Pg&28d;;qn9ipN+n&kduBIeJa|?
zXq68g`rCyr(4`ocFO)}+;zgCJl%Y~iim2(LNta6efEW&{jie&dC6F$Bbh)F8oW-mF
zbWyXJKX=gR0;a&9x;lx!7!LkmIG25-;E)<ZR{)at*K=o=(BPBcYq!q|hqN7%(MT?%
z_eAmvsoo#ubW*cR4k78oVYW$8F8P8K;8J@_*)4Upl-S|Z?0AGmm(#k4)}^y9n01+~
zi(_38>pEChzq;l<?$F5h)z7~0bS?W$ADS*MbxFxOvUTv$@#G{M`XTq@85$`NpQR_o
z;E(7@1$eS^z2VMTp+2&2=AiUB4QYkgSGzKX|C!^M`1^l3=CD@Xbzs_3o3VR5Lsh?>
Q>-tvWfwUo|tX)q29}7$?+yDRo

delta 6924
zcmcgx3vg7`8RqP6f}l`BAOVt;C00$QWM!4d@T?}$1PBdNg7V5h*xcmqg?(gqli&lF
zjue}^4wZi`R-G!=`arGGYm17NC|azjfht9%N?L6dg$fa0)H*%ie>e9eF~rz$nw|O1
zch9}&zRvmo@B43_e9_Ud)seQrb<=_CZ%lhb%($^*hM6PwJH=W$=2}b3(sZ$acBd_%
zjP$2PF>M@NoSxK2Cvqxi{Lnm_K6swhNqYtdQ>@_(pSYY3oN+l74asph{aeOlo0HEP
zA%sB-GcGWjhxwesLx)CqXlTYI+<B|0praWTG=1cB>mYh>*l;pO-o#s;w8XqBU8C8f
z%0!ZeXO5+}GFJ$bW{xuH!%<g>>9l6_bo$NcYsFkD%$iHlteMt0N8(~SoOLlx$Ziys
zv^Beu-p%&PT{VszT9rPGIxbD8vN0ZN8dD^DPpr$Mg}Fm%@0icjmI%|)v0<}%++5s#
z>JU*x?Kwr}e{${>^4;8>x4=A^SLYCmXt{e4J>+hhom-%J>OJmxq1Eo1V6A&mC|K_f
z)o~jw#M{eS6xM3iXc70^S}hp!*ZF-lF@GqSY)l9rttu=RerlgHfy}eZ%`eV=#wprp
z*LiKUp};Se(E9~TsH9L6C3Ih5iFvHBMTn=U`TI}N)QM5~-nUP@+;kLe5>970K;FzO
zy2CTmtUP}`?*HK*OeW!dbM&YmhTL`jNHpeN>kn#fe-L+Jp7drr<)fW7rHE!sIhQt0
z&E_E&I+kS9{;9=h40T(7lsT>8tga1o(Z*?-BkZGX8Tr)e^@v=WH7l2v&I-tB{qaxE
zr%z_(@tVp05#?o!qsg<!@QEjx>t|o+ux?9~QAhrHv~OBEO)4Eixff-S=OSOuxROvH
z5DK~*quLDj!jKm8``i(&E>hzUnh##|r4Z%xKyf*JTpScLskUS$-BB`0o^XGOSCn=;
zVK$YQ=8G8B<duqfwC$34bo3G|gzsKDQFv)pxtG>oI<3d{sIpRPn^u-@q#@;n)|R=l
zyfvNLR;JVFN`p33M#TX-S$Tk7SU8@pT{K@@P3?=Wri!YFSWdgDmQ&7RLr&$cs&RD3
z;z~NcxK>P}#g|PoH(hpBnpjGX6-&((D>9rETD@3or6aZLXtr-WRr{_;ZB^Eer%>$`
z;ug8@7TTx<#2)I@_Rte`d*vJ3R9|MkT>q&UKFsgYJaQV{`QB(OpI-G}NtuE9G8|V1
zis{b4N|8^FV7_@y@E0OuL}kQX7m8^9`k=cx6se7xFNJnEXl(RTxwbN5OUQ`jxSZig
zh)&c`rB#h1#kmx1JeO{1TqCOF0rQ7olw3H`7%gvV6w7FT(=wXaTu=L&D(G<Y2s+-J
zN3X8S6^40Y-2^La3e8zp{(2bg|7j7qTBe-WtjG21^v(KK{dWDHgwx;PO#&}qypVBn
zQr|(VTJq!rU(+%+?V#SFAEDb@+z$N|J=?M%o+AbgN;sl&pd%{BIihlyBRV;0Oq4r}
zDS$bEGQdK>Qow4!8bA!N9<T|p8E`XT8(=%Y1ndOt2JDrPaEAT3*}SkHcN_NOZo__g
z-9tF!9l$X`?LW&&{}OyK6<(h^e~be+i>GwpAsr34*#<eNQ0_1;0L%cC04gLToDBh7
zrXhf<Gz4&!hJYMUO*dV?HoghRZ3f&7*ap}RFab{jo&&rLI0)zf907C!{ta+BB@6>(
z0mcIg0A9chKnb7%Pz9(4Xii;X5VQ#p2V4jEIpCLoI|26tOu$aSZopo^D}Y0Qw*emj
zJ_39JNOMUT4#=i6Zz!EJ33NK37%(4D1*itp0YZRvfDM2az!t!*F4}TKS=_i=Zs_&K
zJyvtC)!fI89@fLgcF?eKztucoH4k#5H_Km~7c7=67A=;oT)6Vrs<#@y#bK?+Lsrvj
zH4k&6?~uPXJ>F(Kg6%fLw3<h)=6Brad*rWOZ#RCA&30pl)jVc3k8`6Rl)nzdfc$mp
zoyHUB?lg8<&68I12X6FJ`YFSS#mDfJYfwBzcgg)$XPeEQw%M5&!tf0GnC-UNvo?Fq
zW|<hl@JIA9+heomZMN!9HbvMP4BrD|cmaEv?X}s9Hhalt9N8+oRgBM}XEt9P$N5w|
ztDshqt-@QyxC(R??JDH$xaZ(EUcogOUdCN9YfmxxlK0u2`)$T)fq`=a!!ewO;S(^1
zKVt;5S8VpG%?{X%vx=2k5W|B3BLH#6zu-V-2W|G6&0e<|GLpeC0gT}d>}7VyW`DKW
zn>OR5r7~A4eZ}QqmBj2!#_7yhjEgY5h0`!QY_krV{mo|87{O2n#_)ISW%jns-sxg-
z;~!nr2x17sKhekRU7NjUvm-WZ!U%@<(Z}oqn;o^;F`He35e)xA-!=RiK4gkL$8C1P
zW}LPeICpQRiY*i4oUK*LR(V?`Z<WDS8dteoC3Kb5RccrHT_t&y=?k2gHqQ4d>8s4I
z(!bIGB?KuokSEZPw^<RCEGTVI0-;pGmWp^c!BDE9q(kY45)q{&N=}rfC}C0Rq9jJ?
zj3qX4%#M;AOLx$h4RG7gX|s=PcG6}a+pGYL;S-yEYO~L5_IZlQw7~+$z$(YUQm6Dz
ziJnqEC4Wi-l@Ka5RFbH4F(r=jR^zwI8)-}o_l1H@S|loqkW#-dmRz4K(CZT}e<0>f
z>S1Zlq|?${Evu%t$sKE@4bt0XM@Y7vi8Ohn=1sD?B%Bz<0+Mi9-I+4a$!>WPPV{Wt
zIDIDKY^XT%C7d`ZXD{igbV-qn*f(*;uuKsrfP^!K{Rr%YE2c*zN65-<pQMON+3iC&
zW-yV~5c3vAlRPihh9*m`k*jNbYv`V>nel$?L4VeuKk4sJ@p~&h)}R#r$E~IxX*Z;p
z4@k=gs^FGxvvl?)+)B3xs?lH7#lB^+hup~+VCCye?*=Mp0~N2n^e5hz0QD<2-Lz()
z3e%6SAO|a9vE)Q9VWWRF8E8iO`aCp*149NxkT&1uiT9|^q{W4Wg+uL-&NJmK*&HIM
zyLma~%zD*aYj9kza!VO76ML28+AHuj*jXvpq`Z=HK5TN7gHe8jtp_^{whydLtOP2>
za$@DIsnR4TM<heK_O>Zj#lZD~aW7)-KEQSWY6Jrng2DAckC(*>fhz%{6-RItu!B<p
zTYuwG^s?>W!%2Y6zVR4(Ir=-;*c&@pmEh_P_VlN$z~6<AHUPVJ4sv$rY|h!2b3k(_
zKab-$fOGJMIe^(;v$bYdefk;Wj4<#iljrBaXD_@D7iI(8YXUju+1+xWv!_+_$$`$M
z^);?oUdL&8emS(+lCm3RBid`aIjRq11cx%)$p3BjwZu4IC_tb8%G>7}NY#q{u7Xre
z_?2}a>%T{EizouSuY^?T*Ly9*WxS=90|s<o4PAxZAfwlkP~}^%b-}TE+Qp&Dux=}a
z*Wl@w$TtgW`2ZZ#16U?q<&ac`(=HZO>vXM{L55l|s+#G4)u@7`ucb5P8)ptJktx61
z-jx-X#rhHJ^Amq>QWYo{Ncg~Gl`&kHaIL|G!~j0ND1WV7we6+5KD#WF=U2X2xn<>%
zl?ztZR~cTmugY?=(PU@2#YHdPc~1Q6pN_?oi!`p!xH4m*<SOhvtmh*D7R3+1xWr-+
zWc_35JB}S(KB=PVW(PiJY{M)3zkTuQ_0r?2jQK_%yHpX<`#Tq&ljWRii<8*oih`w^
ztB23f_c>s`Ym~$)&>j=>^j+t~zwOsPz<bgX-wB3d+JbmZME*}BS|L9TC##bMMvqzh
yRwoUwQcH}k)xr@?{_8}mU4Tpfpxd?i!$=QJNo5Fra~tsbSn;=jLH4yq&wl}*uhk6z

-- 
2.43.0


From b19c24fb7b8c94fcae36314203c437912614097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 26/82] fix: looking up a value of an organisational system
 based on itself doesn't recurse forever

---
 BibleOrgSys/Reference/BibleOrganisationalSystems.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index 815203c..fca0f16 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -206,13 +206,18 @@ class BibleOrganisationalSystems:
     # end of BibleOrganisationalSystems.getOrganisationalSystem
 
 
-    def getOrganisationalSystemValue( self, systemName, valueName, suppressErrors=False ):
+    def getOrganisationalSystemValue( self, systemName, valueName, suppressErrors=False, alreadyTried=None ):
         """
         Gets a value for the system.
+
+        The alreadyTried parameter is the set of system names which have been tried by recursive calls
+            (because some systems are based on a text of the same name).
         """
         fnPrint( DEBUGGING_THIS_MODULE, "getOrganisationalSystemValue( {}, {} )".format( repr(systemName), repr(valueName) ) )
         assert systemName and isinstance( systemName, str )
         assert valueName and isinstance( valueName, str )
+        if alreadyTried is None: alreadyTried = set()
+        alreadyTried.add( systemName )
         thisSystem = self.getOrganisationalSystem( systemName, suppressErrors )
         #if systemName=='KJV-1611': vPrint( 'Quiet', DEBUGGING_THIS_MODULE, thisSystem ); halt
         if thisSystem is not None:
@@ -232,7 +237,8 @@ class BibleOrganisationalSystems:
                     for trySystemName in trySystemNames:
                         if trySystemName == systemName: # Avoid infinite recursion
                             trySystemName += '_' + possibleType
-                        result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True )
+                        if trySystemName in alreadyTried: continue # Avoid infinite recursion
+                        result = self.getOrganisationalSystemValue( trySystemName, valueName, suppressErrors=True, alreadyTried=alreadyTried )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "trySystemName result is {}".format( repr(result) ) ); halt
                         if result is not None: return result
             # else we couldn't find it anywhere
-- 
2.43.0


From 760e9f50044dfbb7a5c47ea6a7fdb68cd6040573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 27/82] fix: reference parsers and organisational systems give
 answers that don't depend on earlier questions

---
 .../Reference/BibleOrganisationalSystems.py     | 17 +++++++++--------
 BibleOrgSys/Reference/BibleReferences.py        | 10 ++++++----
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/Reference/BibleOrganisationalSystems.py b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
index fca0f16..4bc8a53 100755
--- a/BibleOrgSys/Reference/BibleOrganisationalSystems.py
+++ b/BibleOrgSys/Reference/BibleOrganisationalSystems.py
@@ -297,6 +297,7 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
 
         vPrint( 'Info', DEBUGGING_THIS_MODULE, _("Loading {!r} system").format( systemName ) )
         assert systemName and isinstance( systemName, str )
+        self.__absoluteVerseDict = {} # Filled in if and when it's needed
         self.__boss = BibleOrganisationalSystems().loadData() # Doesn't reload the XML unnecessarily :)
         result = self.__boss.getOrganisationalSystem( systemName )
         if result is None:
@@ -530,20 +531,20 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
     # end of BibleOrganisationalSystem.isValidBCVRef
 
 
-    __absoluteVerseDict = {}
     def __makeAbsoluteVerseList( self ):
         """
         Make up a list of four-tuples containing
             BBB, chapterNumber, firstVerseNumber, lastVerseNumber
         """
-        accumulatedCount = 0
+        absoluteVerseDict, accumulatedCount = {}, 0
         for BBB in self.getBookList():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, BibleVersificationSystem.getNumVersesList( self, BBB ) )
             for j,numVerses in enumerate( BibleVersificationSystem.getNumVersesList( self, BBB ) ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, j, numVerses )
-                BibleOrganisationalSystem.__absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
+                absoluteVerseDict[(BBB,j+1)] = (accumulatedCount+1,accumulatedCount+numVerses)
                 accumulatedCount += numVerses
-        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BibleOrganisationalSystem.__absoluteVerseDict )
+        self.__absoluteVerseDict = absoluteVerseDict # Only now that it's complete
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.__absoluteVerseDict )
     # end of BibleOrganisationalSystem.__makeAbsoluteVerseList
 
 
@@ -557,8 +558,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         C, V = int(C), int(V)
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        rangeStart, rangeEnd = BibleOrganisationalSystem.__absoluteVerseDict[ (BBB,C) ]
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        rangeStart, rangeEnd = self.__absoluteVerseDict[ (BBB,C) ]
         if 1 <= V <= rangeEnd-rangeStart+1:
             return rangeStart + V - 1
     # end of BibleOrganisationalSystem.getAbsoluteVerseNumber
@@ -574,8 +575,8 @@ class BibleOrganisationalSystem( BibleBookOrderSystem, BibleVersificationSystem,
         Returns None for invalid or missing values.
         """
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: assert 1 <= avNumber <= 99999
-        if not BibleOrganisationalSystem.__absoluteVerseDict: self.__makeAbsoluteVerseList()
-        for (BBB,C),(rangeStart, rangeEnd) in BibleOrganisationalSystem.__absoluteVerseDict.items():
+        if not self.__absoluteVerseDict: self.__makeAbsoluteVerseList()
+        for (BBB,C),(rangeStart, rangeEnd) in self.__absoluteVerseDict.items():
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, rangeStart, rangeEnd )
             if rangeStart <= avNumber <= rangeEnd:
                 return BBB, str(C), str(avNumber - rangeStart + 1)
diff --git a/BibleOrgSys/Reference/BibleReferences.py b/BibleOrgSys/Reference/BibleReferences.py
index 887de88..6e22d87 100755
--- a/BibleOrgSys/Reference/BibleReferences.py
+++ b/BibleOrgSys/Reference/BibleReferences.py
@@ -1256,6 +1256,8 @@ class BibleReferenceList( BibleReferenceBase ):
 
         Assumes that the book names and punctuation are OSIS standard.
         """
+        savedPunctuationDict, savedGetBBBFromText = self.punctuationDict, self.getBBBFromText # So we can restore them below
+
         # Set things up for OSIS system e.g., 1Cor.3.5-1Cor.3.9
         self.punctuationDict = {'booknameCase': 'M', 'booknameLength': 'M', 'spaceAllowedAfterBCS': 'N', 'punctuationAfterBookAbbreviation': '', 'chapterVerseSeparator': '.', 'bookChapterSeparator': '.', 'chapterSeparator': ';', 'bookBridgeCharacter': '-', 'chapterBridgeCharacter': '-', 'verseBridgeCharacter': '-', 'bookSeparator': ';', 'verseSeparator': ',', 'allowedVerseSuffixes': ''}
         OSISList = BibleOrgSysGlobals.loadedBibleBooksCodes.getAllOSISBooksCodes()
@@ -1263,11 +1265,11 @@ class BibleReferenceList( BibleReferenceBase ):
         self.getBBBFromText = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromOSISAbbreviation
 
         # Now do the actual parsing using the standard routine
-        sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
+        try:
+            sucessFlag, haveWarnings, resultList = self.parseReferenceString( referenceString )
 
-        # Set things up again how they were
-        self.punctuationDict = self._BibleOrganisationalSystem.getPunctuationDict()
-        self.getBBBFromText = self._BibleOrganisationalSystem.getBBBFromText # This is the function that finds a book by name
+        finally: # Set things up again how they were (even if the parsing fails)
+            self.punctuationDict, self.getBBBFromText = savedPunctuationDict, savedGetBBBFromText
 
         return sucessFlag, haveWarnings, resultList
     # end of BibleReferenceList.parseOSISReferenceString
-- 
2.43.0


From de20479f0ea75c7b2fdc4e9ad36b181413b3d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 28/82] fix: whether translation alignments are handled doesn't
 depend on which other books of the Bible are already loaded

---
 BibleOrgSys/Formats/USFMBibleBook.py   | 7 ++++++-
 BibleOrgSys/Internals/InternalBible.py | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USFMBibleBook.py b/BibleOrgSys/Formats/USFMBibleBook.py
index c24f716..679f783 100755
--- a/BibleOrgSys/Formats/USFMBibleBook.py
+++ b/BibleOrgSys/Formats/USFMBibleBook.py
@@ -410,6 +410,12 @@ class USFMBibleBook( BibleBook ):
         if encoding is None: encoding = 'utf-8'
         originalBook.read( self.sourceFilepath, encoding=encoding )
 
+        # The alignments must be handled right from the first line of the book (irrespective of which other books happen to be already loaded)
+        if not gotUWEncoding \
+        and any( marker=='zaln-s' or (text and '\\zaln-s ' in text) for marker,text in originalBook.lines ):
+            gotUWEncoding = True
+            issueLinePositioningErrors = False
+
         # Do some important cleaning up before we save the data
         C, V = '-1', '-1' # So first/id line starts at -1:0
         lastMarker = lastText = None
@@ -683,7 +689,6 @@ class USFMBibleBook( BibleBook ):
             assert not alignmentVariables['words'] # no left-overs
             if alignmentVariables['saved']:
                 self.uWalignments = alignmentVariables['saved']
-                self.containerBibleObject.uWencoded = True
                 if DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"\n\nGot {len(self.uWalignments):,} alignments for '{self.workName}' {self.BBB}" )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"  Alignments max level was {alignmentVariables['maxLevel']}" )
diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index cf3ab07..eb3c5c5 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -166,7 +166,8 @@ class InternalBible:
                 fieldContents = self.getSetting( fieldName )
                 if fieldContents:
                     result += ('\n' if result else '') + ' '*indent + _("{}: {!r}").format( fieldName, fieldContents )
-            if 'uWencoded' in self.__dict__ and self.uWencoded:
+            if ('uWencoded' in self.__dict__ and self.uWencoded) \
+            or any( 'uWalignments' in bookObject.__dict__ for bookObject in self.books.values() ):
                 result += ('\n' if result else '') + ' '*indent + _("Contains translation alignments: True")
         if BibleOrgSysGlobals.verbosityLevel > 2:
             for fieldName in ( 'Status', 'Font', 'Copyright', 'Licence', ):
-- 
2.43.0


From 4ed173482701ddcba6dd66fff023da3c74397f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 29/82] fix: the cache of an online Bible doesn't grow past its
 stated size

---
 BibleOrgSys/Online/GenericOnlineBible.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/Online/GenericOnlineBible.py b/BibleOrgSys/Online/GenericOnlineBible.py
index ce06064..aed4776 100755
--- a/BibleOrgSys/Online/GenericOnlineBible.py
+++ b/BibleOrgSys/Online/GenericOnlineBible.py
@@ -157,6 +157,8 @@ class GenericOnlineBible:
 
         # Not found in the cache
         self.cache[str(key)] = verseData
+        while len(self.cache) > MAX_CACHED_VERSES:
+            self.cache.popitem( last=False ) # Drop the least recently used
     # end of GenericOnlineBible.cacheVerse
 
 
-- 
2.43.0


From 3880bd938fd37051077e583d6f3e64167dfbf106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:59 +0000
Subject: [PATCH 30/82] fix: Sword modules are only installed when completely
 downloaded, and one failing repository doesn't spoil the others

---
 BibleOrgSys/Online/SwordInstallManager.py | 95 ++++++++++++++---------
 1 file changed, 60 insertions(+), 35 deletions(-)

diff --git a/BibleOrgSys/Online/SwordInstallManager.py b/BibleOrgSys/Online/SwordInstallManager.py
index 39670c8..42c17a2 100755
--- a/BibleOrgSys/Online/SwordInstallManager.py
+++ b/BibleOrgSys/Online/SwordInstallManager.py
@@ -353,16 +353,18 @@ class SwordInstallManager():
 
         repoConfFolderName = 'mods.d'
         repoCompressedFilename = repoConfFolderName + '.tar.gz'
-        repoSaveFolder = self.currentTempFolder
-        repoCompressedSaveFilepath = os.path.join( repoSaveFolder, repoCompressedFilename )
-        if os.path.isfile( repoCompressedSaveFilepath ): # delete file if it exists
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Delete1", repoCompressedSaveFilepath )
-            os.remove( repoCompressedSaveFilepath )
-        repoConfFolder = os.path.join( repoSaveFolder, repoConfFolderName )
-        if os.path.isdir( repoConfFolder ): # delete folder if it exists
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Delete2", repoConfFolder )
-            shutil.rmtree( repoConfFolder )
+        repoSaveFolder = tempfile.mkdtemp( prefix='BOSSword', dir=self.currentTempFolder ) # Not shared with any other program
+        try: return self._refreshFromRepo( repoSite, repoFolderpath, repoSaveFolder, repoConfFolderName, repoCompressedFilename )
+        finally: shutil.rmtree( repoSaveFolder, ignore_errors=True )
+    # end of SwordInstallManager.refreshRemoteSource
 
+
+    def _refreshFromRepo( self, repoSite:str, repoFolderpath:str, repoSaveFolder:str, repoConfFolderName:str, repoCompressedFilename:str ) -> bool:
+        """
+        Download and unpack the index of the selected repository into the given (empty) folder,
+            and add its modules to self.availableModules (all of them or none).
+        """
+        repoCompressedSaveFilepath = os.path.join( repoSaveFolder, repoCompressedFilename )
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Refreshing/Downloading index files from {} repository…").format( self.currentRepoName ) )
 
         # Download the config files
@@ -376,7 +378,8 @@ class SwordInstallManager():
                 logging.error( "refreshRemoteSource: Unable to reach {} on {} with {!r}" \
                                                 .format( repoFolderpath, repoSite, err ) )
                 return False
-        ftp.retrbinary( 'RETR ' + repoCompressedFilename, open( repoCompressedSaveFilepath, 'wb' ).write )
+        with open( repoCompressedSaveFilepath, 'wb' ) as compressedFile:
+            ftp.retrbinary( 'RETR ' + repoCompressedFilename, compressedFile.write )
         ftp.quit()
 
         # Extract the files from the compressed tar.gz file
@@ -426,9 +429,8 @@ class SwordInstallManager():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, allConfigs )
 
         # Place the conf files information into a dictionary
-        for confName in confNames:
-            confPath = os.path.join( repoConfFolder, confName+'.conf' )
-            confDict = self._getConfFile( confName, confPath )
+        confDicts = { confName:self._getConfFile( confName, os.path.join( repoConfFolder, confName+'.conf' ) ) for confName in confNames }
+        for confName,confDict in confDicts.items():
             moduleName = confDict['Name']
             newTuple = (self.currentRepoName,confName,confDict)
             if moduleName in self.availableModules: # already
@@ -440,16 +442,18 @@ class SwordInstallManager():
                 self.availableModules[moduleName] = newTuple
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'availableModules', len(self.availableModules), self.availableModules.keys() )
         return True
-    # end of SwordInstallManager.refreshRemoteSource
+    # end of SwordInstallManager._refreshFromRepo
 
 
-    def refreshAllRemoteSources( self ) -> None:
+    def refreshAllRemoteSources( self ) -> bool:
         """
         Get a list of available modules from all the remote repositories
             (irrespective of self.currentRepoName).
 
         Places the information in self.availableModules
             (which is cleared first).
+
+        Returns True if all of the repositories could be refreshed.
         """
         fnPrint( DEBUGGING_THIS_MODULE, "SwordInstallManager.refreshRemoteSource()" )
 
@@ -466,11 +470,17 @@ class SwordInstallManager():
         self.availableModules = {}
 
         # Go through each repo and get the source list
-        for repoName in self.downloadSources:
-            self.currentRepoName = repoName
-            self.refreshRemoteSource( clearFirst=False )
-
-        self.currentRepoName = saveRepo
+        allGood = True
+        try:
+            for repoName in self.downloadSources:
+                self.currentRepoName = repoName
+                try:
+                    if not self.refreshRemoteSource( clearFirst=False ): allGood = False
+                except Exception as err: # Don't let one bad repository prevent us from listing the others
+                    logging.error( "refreshAllRemoteSources: Unable to refresh {} with {!r}".format( repoName, err ) )
+                    allGood = False
+        finally: self.currentRepoName = saveRepo
+        return allGood
     # end of SwordInstallManager.refreshAllRemoteSources
 
 
@@ -523,7 +533,10 @@ class SwordInstallManager():
             return False
 
         # Get the config info
-        repoName, confName, confDict = self.availableModules[moduleName]
+        entries = self.availableModules[moduleName]
+        if isinstance( entries, tuple ): entries = [entries]
+        # If the module is in several repositories, take the entry for the selected one
+        repoName, confName, confDict = next( (entry for entry in entries if entry[0]==self.currentRepoName), entries[0] )
         if repoName != self.currentRepoName:
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "installModule: You requested {!r} from {} but it's in {}!".format( moduleName, self.currentRepoName, repoName ) )
             return False
@@ -536,7 +549,15 @@ class SwordInstallManager():
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(moduleName), repr(moduleRelativePath) )
         fileSaveFolder = os.path.join( self.currentInstallFolderpath, moduleRelativePath )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Save folder is", fileSaveFolder )
-        if not os.path.isdir( fileSaveFolder): os.makedirs( fileSaveFolder )
+        confFullname = confName+'.conf'
+        confFolderpath = os.path.join( self.currentInstallFolderpath, 'mods.d/' )
+        confFilePath = os.path.join( confFolderpath, confFullname )
+        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'confFilePath', confFilePath )
+
+        # Download everything into a new folder first, so an existing module isn't touched until we have all of it
+        downloadFolder = fileSaveFolder[:-1] + '.download/'
+        if os.path.isdir( downloadFolder ): shutil.rmtree( downloadFolder ) # left from an interrupted download
+        os.makedirs( os.path.join( downloadFolder, 'mods.d/' ) )
 
         # Assume that we're good to go
         repoType, repoSite, repoFolderpath = self.downloadSources[repoName]
@@ -558,24 +579,28 @@ class SwordInstallManager():
                 logging.error( "installModule: Unable to reach {} on {} with {!r}" \
                                             .format( repoFolderpath, repoSite, err ) )
                 return False
+        filenames = []
         for filename,filedict in ftp.mlsd( moduleRelativePath ):
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '  ff', repr(filename), filedict )
             if filename not in ( '.','..', ): # Ignore these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    Need to download", filename )
-                fileSaveFilepath = os.path.join( fileSaveFolder, filename )
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    Save filepath is", fileSaveFilepath )
-                ftp.retrbinary( 'RETR ' + moduleRelativePath + filename,
-                                    open( fileSaveFilepath, 'wb' ).write )
-
-        # Finally download and install the .conf file
-        confFullname = confName+'.conf'
-        confFolderpath = os.path.join( self.currentInstallFolderpath, 'mods.d/' )
-        if not os.path.isdir( confFolderpath): os.makedirs( confFolderpath )
-        confFilePath = os.path.join( confFolderpath, confFullname )
-        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'confFilePath', confFilePath )
-        ftp.retrbinary( 'RETR ' + 'mods.d/' + confFullname,
-                        open( confFilePath, 'wb' ).write ) # , encoding=DEFAULT_SWORD_CONF_ENCODING
+                with open( os.path.join( downloadFolder, filename ), 'wb' ) as dataFile:
+                    ftp.retrbinary( 'RETR ' + moduleRelativePath + filename, dataFile.write )
+                filenames.append( filename )
+        with open( os.path.join( downloadFolder, 'mods.d/', confFullname ), 'wb' ) as confFile: # , encoding=DEFAULT_SWORD_CONF_ENCODING
+            ftp.retrbinary( 'RETR ' + 'mods.d/' + confFullname, confFile.write )
         ftp.quit()
+
+        # Now put the files into place -- without any .conf file, the module isn't installed
+        if os.path.isfile( confFilePath ): os.remove( confFilePath )
+        if not os.path.isdir( fileSaveFolder ): os.makedirs( fileSaveFolder )
+        for filename in filenames:
+            os.replace( os.path.join( downloadFolder, filename ), os.path.join( fileSaveFolder, filename ) )
+
+        # Finally install the .conf file
+        if not os.path.isdir( confFolderpath ): os.makedirs( confFolderpath )
+        os.replace( os.path.join( downloadFolder, 'mods.d/', confFullname ), confFilePath )
+        shutil.rmtree( downloadFolder, ignore_errors=True )
         return True
     # end of SwordInstallManager.installModule
 # end of class SwordInstallManager
-- 
2.43.0


From a499bb01ff298a337a77788eab89788c0948bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:25 +0000
Subject: [PATCH 31/82] fix: downloads of Door43 Bibles are all-or-nothing, and
 whether they are current doesn't depend on the own clock or time zone

---
 .../Online/Door43ContentServiceOnline.py      | 46 ++++++-------
 BibleOrgSys/Online/Door43OnlineCatalog.py     | 68 +++++++++++++------
 2 files changed, 67 insertions(+), 47 deletions(-)

diff --git a/BibleOrgSys/Online/Door43ContentServiceOnline.py b/BibleOrgSys/Online/Door43ContentServiceOnline.py
index af425fe..c7e82ae 100755
--- a/BibleOrgSys/Online/Door43ContentServiceOnline.py
+++ b/BibleOrgSys/Online/Door43ContentServiceOnline.py
@@ -40,8 +40,6 @@ import os
 import logging
 import requests
 import json
-import tempfile
-import zipfile
 from datetime import datetime
 
 if __name__ == '__main__':
@@ -53,6 +51,7 @@ from BibleOrgSys import BibleOrgSysGlobals
 from BibleOrgSys.BibleOrgSysGlobals import fnPrint, vPrint, dPrint
 from BibleOrgSys.Misc.singleton import singleton
 from BibleOrgSys.Formats.USFMBible import USFMBible
+from BibleOrgSys.Online.Door43OnlineCatalog import isDownloadCurrent, unpackDownloadedZip
 
 
 LAST_MODIFIED_DATE = '2022-07-20' # by RJH
@@ -328,16 +327,11 @@ class DCSBible( USFMBible ):
 
         if downloadAllBooks:
             # See if files already exist and are current (so don't download again)
-            alreadyDownloadedFlag = False
-            if os.path.isdir( unzippedFolderpath ):
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Issued: {resourceDict['issued']}" )
-                updatedDatetime = datetime.strptime( resourceDict['updated_at'], '%Y-%m-%dT%H:%M:%SZ' )
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"updatedDatetime: {updatedDatetime}" )
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"folder: {os.stat(unzippedFolderpath).st_mtime}" )
-                folderModifiedDatetime = datetime.fromtimestamp(os.stat(unzippedFolderpath).st_mtime)
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"folderModifiedDatetime: {folderModifiedDatetime}" )
-                alreadyDownloadedFlag = folderModifiedDatetime > updatedDatetime
-                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"alreadyDownloadedFlag: {alreadyDownloadedFlag}" )
+            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Issued: {resourceDict['issued']}" )
+            updatedDatetime = datetime.strptime( resourceDict['updated_at'], '%Y-%m-%dT%H:%M:%SZ' )
+            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"updatedDatetime: {updatedDatetime}" )
+            alreadyDownloadedFlag = isDownloadCurrent( unzippedFolderpath, updatedDatetime )
+            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"alreadyDownloadedFlag: {alreadyDownloadedFlag}" )
 
             if alreadyDownloadedFlag:
                 if BibleOrgSysGlobals.verbosityLevel > 1:
@@ -358,19 +352,10 @@ class DCSBible( USFMBible ):
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    contentType", repr(contentType) )
                 if contentType == 'application/octet-stream':
-                    try: os.makedirs( unzippedFolderpath )
-                    except FileExistsError: pass
                     downloadedData = responseObject.content
                     if BibleOrgSysGlobals.verbosityLevel > 0:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"  Downloaded {len(downloadedData):,} bytes from '{zipURL}'" )
-                    # Bug in Python up to 3.7 makes this not work for large aligned Bibles (3+ MB)
-                    # myTempFile = tempfile.SpooledTemporaryFile()
-                    myTempFile = tempfile.TemporaryFile()
-                    myTempFile.write( downloadedData )
-                    with zipfile.ZipFile( myTempFile ) as myzip:
-                        # NOTE: Could be a security risk here
-                        myzip.extractall( unzippedFolderpath )
-                    myTempFile.close() # Automatically deletes the file
+                    unpackDownloadedZip( downloadedData, unzippedFolderpath, updatedDatetime )
                 else:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    contentType", repr(contentType) )
                     halt # unknown content type
@@ -387,9 +372,10 @@ class DCSBible( USFMBible ):
         else: # didn't request all books to be downloaded at once
             self.downloadedAllBooks = False
             self.attemptedDownload = {}
-            try: os.makedirs( unzippedFolderpath )
+            booksFolderpath = DEFAULT_DOWNLOAD_FOLDERPATH.joinpath( f'{adjustedRepoName}--books/' ) # Must be separate from any complete download
+            try: os.makedirs( booksFolderpath )
             except FileExistsError: pass
-            USFMBible.__init__( self, unzippedFolderpath, givenName=resourceDict['name'] )
+            USFMBible.__init__( self, booksFolderpath, givenName=resourceDict['name'] )
         self.objectNameString = 'DCS USFM Bible object'
         self.uWencoded = True
     # end of DCSBible.__init__
@@ -406,8 +392,6 @@ class DCSBible( USFMBible ):
 
         if not self.downloadedAllBooks:
             if BBB not in self.attemptedDownload or not self.attemptedDownload[BBB]:
-                self.attemptedDownload[BBB] = True
-
                 # TODO: Change to .tar.gz instead of zip
                 nn = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
                 if nn > 39: nn += 1 # DSC uses #41 for MAT (not 39)
@@ -421,6 +405,7 @@ class DCSBible( USFMBible ):
                     #errorClass, exceptionInstance, traceback = sys.exc_info()
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{!r}  {!r}  {!r}'.format( errorClass, exceptionInstance, traceback ) )
                     logging.critical( f"DCS {responseObject.status_code} HTTPError from {zipURL}" )
+                    if responseObject.status_code == 404: self.attemptedDownload[BBB] = True # This repo doesn't have that book
                     return
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  HTTPResponseObject", HTTPResponseObject )
                 contentType = responseObject.headers['Content-Type']
@@ -430,13 +415,20 @@ class DCSBible( USFMBible ):
                     downloadedData = responseObject.text
                     if BibleOrgSysGlobals.verbosityLevel > 0:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"  Downloaded {len(downloadedData):,} chars from '{zipURL}'" )
-                    with open( os.path.join( self.sourceFolder, USFMfilename ), 'wt', encoding='utf-8' ) as ourUSFMfile:
+                    tempFilepath = f'{os.path.normpath( self.sourceFolder )}.{USFMfilename}' # So that we never have a part of a book there
+                    with open( tempFilepath, 'wt', encoding='utf-8' ) as ourUSFMfile:
                         ourUSFMfile.write( downloadedData )
+                    os.replace( tempFilepath, os.path.join( self.sourceFolder, USFMfilename ) )
                 else:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    contentType", repr(contentType) )
                     halt # unknown content type
                 if not self.preloadDone:
                     self.preload()
+                self.possibleFilenameDict[BBB] = USFMfilename
+                self.triedLoadingBook.pop( BBB, None ) # It's a new file
+                USFMBible.loadBookIfNecessary( self, BBB )
+                self.attemptedDownload[BBB] = True
+                return
             else:
                 if BibleOrgSysGlobals.verbosityLevel > 2 or DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{BBB} was already downloaded (or attempted)" )
diff --git a/BibleOrgSys/Online/Door43OnlineCatalog.py b/BibleOrgSys/Online/Door43OnlineCatalog.py
index a8c5814..edc4bdb 100755
--- a/BibleOrgSys/Online/Door43OnlineCatalog.py
+++ b/BibleOrgSys/Online/Door43OnlineCatalog.py
@@ -41,10 +41,12 @@ from gettext import gettext as _
 import os
 import logging
 import requests
+import io
 import json
+import shutil
 import tempfile
 import zipfile
-from datetime import datetime
+from datetime import datetime, timezone
 import logging
 
 # BibleOrgSys imports
@@ -355,6 +357,45 @@ class Door43CatalogResources:
 
 
 
+def isDownloadCurrent( folderpath, issuedDatetime:datetime ) -> bool:
+    """
+    See if we have already downloaded this issue of a resource.
+
+    unpackDownloadedZip() below gives the folder the (UTC) time of the issue when everything is there,
+        so the result doesn't depend on our own clock or time zone.
+    """
+    if not os.path.isdir( folderpath ): return False
+    return abs( os.stat(folderpath).st_mtime - issuedDatetime.replace( tzinfo=timezone.utc ).timestamp() ) < 1
+# end of isDownloadCurrent
+
+
+def unpackDownloadedZip( zipData:bytes, folderpath, issuedDatetime:datetime ) -> None:
+    """
+    Unpack a downloaded zip file to the given folder, replacing any older contents.
+
+    The folder is only touched once the entire zip file has been successfully unpacked elsewhere.
+    """
+    parentFolderpath = os.path.dirname( os.path.normpath( folderpath ) )
+    os.makedirs( parentFolderpath, exist_ok=True )
+    tempFolderpath = tempfile.mkdtemp( prefix='download', dir=parentFolderpath )
+    try:
+        newFolderpath = os.path.join( tempFolderpath, 'new' )
+        with zipfile.ZipFile( io.BytesIO( zipData ) ) as myzip:
+            # Damage to the zip directory can lose or rename entries without zipfile noticing it
+            numEntries = int.from_bytes( zipData[zipData.rfind( b'PK\x05\x06' )+10:][:2], 'little' ) # in the end-of-directory record
+            if len( myzip.infolist() ) != numEntries or myzip.testzip() is not None:
+                raise zipfile.BadZipFile( "Damaged zip file" )
+            # NOTE: Could be a security risk here
+            myzip.extractall( newFolderpath )
+        issuedTime = issuedDatetime.replace( tzinfo=timezone.utc ).timestamp()
+        os.utime( newFolderpath, (issuedTime,issuedTime) )
+        if os.path.isdir( folderpath ): os.rename( folderpath, os.path.join( tempFolderpath, 'old' ) )
+        os.rename( newFolderpath, folderpath )
+    finally: shutil.rmtree( tempFolderpath, ignore_errors=True )
+# end of unpackDownloadedZip
+
+
+
 class Door43CatalogBible( USFMBible ):
     """
     Class to download and manipulate an online Door43 Bible from the catalog.
@@ -401,18 +442,13 @@ class Door43CatalogBible( USFMBible ):
             return
 
         # See if files already exist and are current (so don't download again)
-        alreadyDownloadedFlag = False
         unzippedFolderpath = BibleOrgSysGlobals.DEFAULT_WRITEABLE_DOWNLOADED_RESOURCES_FOLDERPATH.joinpath(
                                 'Door43Catalog/', f"{resourceDict['language']}_{resourceDict['title']}/" )
-        if os.path.isdir( unzippedFolderpath ):
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Issued: {resourceDict['issued']}" )
-            issuedDatetime = datetime.strptime( resourceDict['issued'], '%Y-%m-%dT%H:%M:%S+00:00' )
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"issuedDatetime: {issuedDatetime}" )
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"folder: {os.stat(unzippedFolderpath).st_mtime}" )
-            folderModifiedDatetime = datetime.fromtimestamp(os.stat(unzippedFolderpath).st_mtime)
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"folderModifiedDatetime: {folderModifiedDatetime}" )
-            alreadyDownloadedFlag = folderModifiedDatetime > issuedDatetime
-            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"alreadyDownloadedFlag: {alreadyDownloadedFlag}" )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Issued: {resourceDict['issued']}" )
+        issuedDatetime = datetime.strptime( resourceDict['issued'], '%Y-%m-%dT%H:%M:%S+00:00' )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"issuedDatetime: {issuedDatetime}" )
+        alreadyDownloadedFlag = isDownloadCurrent( unzippedFolderpath, issuedDatetime )
+        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"alreadyDownloadedFlag: {alreadyDownloadedFlag}" )
 
         if alreadyDownloadedFlag:
             vPrint( 'Normal', DEBUGGING_THIS_MODULE, "Skipping download because folder '{}' already exists.".format( unzippedFolderpath ) )
@@ -428,15 +464,7 @@ class Door43CatalogBible( USFMBible ):
             contentType = responseObject.headers['Content-Type']
             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "    contentType", contentType )
             if contentType == 'application/zip':
-                try: os.makedirs( unzippedFolderpath )
-                except FileExistsError: pass
-                # Bug in Python up to 3.7 makes this not work for large aligned Bibles (3+ MB)
-                # myTempFile = tempfile.SpooledTemporaryFile()
-                myTempFile = tempfile.TemporaryFile()
-                myTempFile.write( responseObject.content )
-                with zipfile.ZipFile( myTempFile ) as myzip:
-                    # NOTE: Could be a security risk here
-                    myzip.extractall( unzippedFolderpath )
+                unpackDownloadedZip( responseObject.content, unzippedFolderpath, issuedDatetime )
             else: halt # unknown content type
 
         # There's probably a folder inside this folder
-- 
2.43.0


From ad6ff890ddd76339cca44a876bcc5a46b846819d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 32/82] fix: e-Sword and MyBible exports keep the verse before
 a missing verse

---
 BibleOrgSys/Formats/ESwordBible.py  | 12 ++++++------
 BibleOrgSys/Formats/MyBibleBible.py | 20 ++++++++++----------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index e4eade2..421ae43 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1514,12 +1514,12 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toESword: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index ef69144..08cc1f8 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1142,16 +1142,16 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                         #if composedLine: # don't bother writing blank (unfinished?) verses
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "toMyBible: Writing", BBB, nBBB, C, V, marker, repr(line) )
                             #sqlObject.execute( 'INSERT INTO "Bible" VALUES(?,?,?,?)', (nBBB,C,V,composedLine) )
-                        # Stay one line behind (because paragraph indicators get appended to the previous line)
-                        if ourGlobals['lastBCV'] is not None \
-                        and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
-                            try:
-                                sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
-                                (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
-                            except Exception as e:
-                                logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
-                                raise e # again
-                            #lineCount += 1
+                    # Stay one line behind (because paragraph indicators get appended to the previous line)
+                    if ourGlobals['lastBCV'] is not None \
+                    and ourGlobals['lastLine']: # don't bother writing blank (unfinished?) verses
+                        try:
+                            sqlObject.execute( 'INSERT INTO verses VALUES(?,?,?,?)', \
+                            (ourGlobals['lastBCV'][0],ourGlobals['lastBCV'][1],ourGlobals['lastBCV'][2],ourGlobals['lastLine']) )
+                        except Exception as e:
+                            logging.critical( f"MyBible: error using {ourGlobals}: {e}" )
+                            raise e # again
+                        #lineCount += 1
                     ourGlobals['lastLine'] = composedLine
                 ourGlobals['lastBCV'] = (nBBB,C,V)
                 V += 1
-- 
2.43.0


From 964575f2fa4107d7ac881a84a004402540f2b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 33/82] fix: e-Sword modules without markup give each chapter
 its chapter line

---
 BibleOrgSys/Formats/ESwordBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 421ae43..3ccd113 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -542,6 +542,9 @@ def handleESwordLine( self, myName, BBB:str, C:str, V:str, originalLine, bookObj
     else:
         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ESwordModule.handleESwordLine: What's this: {} {} {}:{} {!r}".format( myName, BBB, C, V, originalLine ) )
         if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag: halt # What's this???
+        if myGlobals.get( 'lastBC' ) != (BBB,C): # The first line that we have for this chapter
+            bookObject.addLine( 'c', str(C) )
+            myGlobals['lastBC'] = (BBB,C)
         bookObject.addLine( 'v', '{} {}'.format( V, originalLine ) )
 # end of ESwordModule.handleESwordLine
 
-- 
2.43.0


From 1126b37f946986e5e87154e1c02921f2e91c6402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 34/82] fix: exported OpenSong files have the root element that
 OpenSong (and our importer) expects

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 1089419..5c14172 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -334,10 +334,10 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
     xw = MLWriter( filename, outputFolder )
     xw.setHumanReadable()
     xw.start()
-    xw.writeLineOpen( 'Bible' )
+    xw.writeLineOpen( 'bible' )
     for BBB,bookData in BibleObject.books.items():
         writeOpenSongBook( xw, BBB, bookData )
-    xw.writeLineClose( 'Bible' )
+    xw.writeLineClose( 'bible' )
     xw.close()
 
     if ignoredMarkers:
-- 
2.43.0


From 5d88d08de7cbd8aa20031a774d951ae4d99bcf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:45 +0000
Subject: [PATCH 35/82] fix: exported Haggai files have the root element that
 our importer expects

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 542ade2..c17724a 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6287,12 +6287,12 @@ class BibleWriter( InternalBible ):
 # TODO: Some modules have <XMLBIBLE xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance" xsi:noNamespaceSchemaLocation="zef2005.xsd" version="2.0.1.18" status='v' revision="1" type="x-bible" biblename="KJV+">
         try: hBN = controlDict['HaggaiBibleName']
         except KeyError: hBN = 'ExportedBible'
-        xw.writeLineOpen( 'XMLBible', [('xmlns:xsi',"http://www.w3.org/2001/XMLSchema-instance"), ('type',"x-bible" ), ('biblename',hBN) ] )
+        xw.writeLineOpen( 'XMLBIBLE', [('xmlns:xsi',"http://www.w3.org/2001/XMLSchema-instance"), ('type',"x-bible" ), ('biblename',hBN) ] )
         if True: #if controlDict['HaggaiFiles']=='byBible':
             writeHeader( xw )
             for BBB,bookData in self.books.items():
                 writeHagBook( xw, BBB, bookData )
-        xw.writeLineClose( 'XMLBible' )
+        xw.writeLineClose( 'XMLBIBLE' )
         xw.close()
 
         if ignoredMarkers:
-- 
2.43.0


From 65971d7eb270168bc42bda25897f37bce58a3840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 36/82] fix: Haggai export puts every verse in a paragraph, and
 the importer reads verses that go on after a paragraph break

---
 BibleOrgSys/BibleWriter.py            | 12 +++++++-----
 BibleOrgSys/Formats/HaggaiXMLBible.py |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c17724a..25312ba 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -6225,7 +6225,7 @@ class BibleWriter( InternalBible ):
                     verseNumberString = text.replace('<','').replace('>','').replace('"','') # Used below but remove anything that'll cause a big XML problem later
                     #writerObject.writeLineOpenClose ( 'VERS', verseText, ('vnumber',verseNumberString) )
 
-                elif marker in ('p', 'pi1','pi2','pi3','pi4', ):
+                elif marker in USFM_BIBLE_PARAGRAPH_MARKERS:
                     if haveOpenParagraph:
                         writerObject.writeLineClose ( 'PARAGRAPH' )
                     writerObject.writeLineOpen ( 'PARAGRAPH' )
@@ -6234,9 +6234,6 @@ class BibleWriter( InternalBible ):
                 or marker in USFM_ALL_INTRODUCTION_MARKERS \
                 or marker in ('s1','s2','s3','s4', 'r','sr','mr', 'd','sp','cd', 'cl','lit', ):
                     ignoredMarkers.add( marker )
-                elif marker in USFM_BIBLE_PARAGRAPH_MARKERS:
-                    if self.doExtraChecking: assert not text and not extras
-                    ignoredMarkers.add( marker )
                 elif marker in ('b', 'nb', 'ib', ):
                     if self.doExtraChecking: assert not text and not extras
                     ignoredMarkers.add( marker )
@@ -6247,11 +6244,16 @@ class BibleWriter( InternalBible ):
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
                     if not text: # this is an empty (untranslated) verse
                         text = '- - -' # but we'll put in a filler
+                    if not haveOpenParagraph: # e.g., after nb
+                        writerObject.writeLineOpen ( 'PARAGRAPH' ); haveOpenParagraph = True
                     writerObject.writeLineOpenClose ( 'VERSE', text, ('vnumber',verseNumberString) )
                 elif marker == 'p~':
                     if self.doExtraChecking: assert text or extras
                     # TODO: We haven't stripped out character fields from within the verse — not sure how Haggai handles them yet
-                    if text: writerObject.writeLineOpenClose ( 'VERSE', text )
+                    if text:
+                        if not haveOpenParagraph:
+                            writerObject.writeLineOpen ( 'PARAGRAPH' ); haveOpenParagraph = True
+                        writerObject.writeLineOpenClose ( 'VERSE', text )
                 else:
                     if text:
                         logger.error( "toHaggai: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index b9e4cf3..070058c 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -711,7 +711,8 @@ class HaggaiXMLBible( Bible ):
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+            else: thisBook.addLine( 'm', vText ) # The verse goes on after a paragraph or line break
     # end of HaggaiXMLBible.__validateAndExtractVerse
 # end of HaggaiXMLBible class
 
-- 
2.43.0


From 1031a56b156859ff41ddcd9922c4524f5fe0596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 37/82] fix: Zefania importer keeps the verse text after notes,
 in styles and after paragraph breaks, and verse bridges

---
 BibleOrgSys/Formats/ZefaniaXMLBible.py | 69 ++++++++++++--------------
 1 file changed, 31 insertions(+), 38 deletions(-)

diff --git a/BibleOrgSys/Formats/ZefaniaXMLBible.py b/BibleOrgSys/Formats/ZefaniaXMLBible.py
index 5487bf8..1afdc5f 100755
--- a/BibleOrgSys/Formats/ZefaniaXMLBible.py
+++ b/BibleOrgSys/Formats/ZefaniaXMLBible.py
@@ -595,12 +595,14 @@ class ZefaniaXMLBible( Bible ):
         for attrib,value in verse.items():
             if attrib == 'vnumber':
                 verseNumber = value
+            elif attrib == 'enumber':
+                toVerseNumber = value
             else: logging.warning( "Unprocessed {!r} attribute ({}) in verse element".format( attrib, value ) )
         if BibleOrgSysGlobals.debugFlag: assert verseNumber
+        if verseNumber and toVerseNumber: verseNumber = f'{verseNumber}-{toVerseNumber}' # A verse bridge
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
-        vText = verse.text
-        if vText: vText = vText.strip('\n')
+        vText = verse.text.strip('\n') if verse.text else '' # There's none if a verse starts immediately with a style or note
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -616,56 +618,44 @@ class ZefaniaXMLBible( Bible ):
                 if noteType not in ('n-studynote','x-studynote',):
                     logging.warning( "Unexpected {} note type in {}".format( noteType, BBB ) )
                 if BibleOrgSysGlobals.debugFlag: assert noteType
-                nText, nTail = subelement.text, subelement.tail
+                nText, nTail = subelement.text if subelement.text else '', subelement.tail
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "note", BBB, chapterNumber, verseNumber, noteType, repr(nText), repr(nTail) )
-                #thisBook.addLine( 'ST', css ) # XXXXXXXXXXXXXXXXXXXXXXXXXX Losing data here (for now)
-                #thisBook.addLine( 'ST=', nText )
-                if nTail:
-                    if '\n' in nTail:
-                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
-                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
-                        nTail = nTail.replace( '\n', ' ' )
-                    thisBook.addLine( 'v~', nTail )
                 for sub2element in subelement:
                     if sub2element.tag == STYLE_TAG:
                         sub2location = "style in " + sublocation
                         BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location, 'fyt4' )
-                        css = idStyle = None
-                        for attrib,value in sub2element.items():
-                            if attrib == 'css':
-                                css = value
-                            elif attrib == 'id':
-                                idStyle = value
-                            else: logging.warning( "Unprocessed {!r} attribute ({}) in style sub2element".format( attrib, value ) )
-                        if BibleOrgSysGlobals.debugFlag: assert css or idStyle
-                        SFM = None
-                        if css=='font-style:italic' or css=='font-style:italic;': SFM = '\\it'
-                        elif css == "font-style:italic;font-weight:bold": SFM = '\\bdit'
-                        elif css == "color:#FF0000": SFM = '\\em'
-                        elif css == "font-size: x-small; color:#8B8378": SFM = '\\add'
-                        elif css is None and idStyle=='cl:divineName': SFM = '\\nd'
-                        else:
-                            logging.error( "Ignored1 css is {!r} idStyle is {!r}".format( css, idStyle ) )
-                            if BibleOrgSysGlobals.debugFlag: halt
-                        sText, sTail = sub2element.text.strip('\n'), sub2element.tail
+                        sText, sTail = sub2element.text.strip('\n') if sub2element.text else '', sub2element.tail
                         if BibleOrgSysGlobals.debugFlag: assert sText
-                        if SFM: vText += SFM+' ' + sText + SFM+'*'
-                        else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                        if sTail: vText += sTail.strip('\n')
+                        nText += sText
+                        if sTail: nText += sTail.strip('\n')
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( STYLE_TAG, sub2element.tag, sublocation ) )
+                if nText: vText += f'\\f + \\ft {nText}\\f*'
+                if nTail: # The verse text goes on after the note
+                    if '\n' in nTail:
+                        if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag:
+                            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "ZefaniaXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
+                        nTail = nTail.replace( '\n', ' ' )
+                    vText += nTail
 
             elif subelement.tag == STYLE_TAG:
                 sublocation = "style in " + location
-                css = idStyle = None
+                css = idStyle = fs = None
                 for attrib,value in subelement.items():
                     if attrib == 'css':
                         css = value
                     elif attrib == 'id':
                         idStyle = value
+                    elif attrib == 'fs':
+                        fs = value
                     else: logging.warning( "Unprocessed {!r} attribute ({}) in style subelement".format( attrib, value ) )
-                if BibleOrgSysGlobals.debugFlag: assert css or idStyle
+                if BibleOrgSysGlobals.debugFlag: assert css or idStyle or fs
                 SFM = None
-                if css=='font-style:italic' or css=='font-style:italic;': SFM = '\\it'
+                if fs == 'italic': SFM = '\\it'
+                elif fs == 'bold': SFM = '\\bd'
+                elif fs == 'divineName': SFM = '\\nd'
+                elif fs == 'illuminated': SFM = '\\wj'
+                elif fs == 'small-caps': SFM = '\\sc'
+                elif css=='font-style:italic' or css=='font-style:italic;': SFM = '\\it'
                 elif css == "font-style:italic;font-weight:bold": SFM = '\\bdit'
                 elif css == "color:#FF0000": SFM = '\\em'
                 elif css == "font-size: x-small; color:#8B8378": SFM = '\\add'
@@ -689,7 +679,8 @@ class ZefaniaXMLBible( Bible ):
                 sTail = subelement.tail.strip('\n') if subelement.tail else None
                 if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: assert sText
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
-                else: vText += '\\sc ' + '['+(css if css else '')+']' + sText + '\\sc* ' # Use sc for unknown styles
+                elif css: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
+                else: vText += sText
                 if sTail: vText += sTail
 
             elif subelement.tag == BREAK_TAG:
@@ -708,7 +699,8 @@ class ZefaniaXMLBible( Bible ):
                     if '\n' in vText:
                         logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_a: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                         vText = vText.replace( '\n', ' ' )
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText )
+                    if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+                    else: thisBook.addLine( 'm', vText )
                     vText = ''
                 breakText = subelement.tail.strip('\n') if subelement.tail else ''
                 if '\n' in breakText:
@@ -751,7 +743,8 @@ class ZefaniaXMLBible( Bible ):
             if '\n' in vText:
                 logging.warning( "ZefaniaXMLBible.__validateAndExtractVerse_b: newline in vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
                 vText = vText.replace( '\n', ' ' )
-            thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText )
+            else: thisBook.addLine( 'm', vText ) # The verse goes on after a paragraph or line break
     # end of ZefaniaXMLBible.__validateAndExtractVerse
 # end of ZefaniaXMLBible class
 
-- 
2.43.0


From 542bf22a59c2b5bc930707ab3aa8a94c89ef59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 38/82] fix: USFX exports are well-formed XML for all paragraph
 types, and the importer reads their character styles

---
 BibleOrgSys/BibleWriter.py          | 9 +++++----
 BibleOrgSys/Formats/USFXXMLBible.py | 6 ++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 25312ba..bfe22c5 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4716,7 +4716,7 @@ class BibleWriter( InternalBible ):
                     # TODO: We haven't stripped out character fields from within the verse — not sure how USFX handles them yet
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineText( handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                elif getMarkerContentType == 'N': # N = never, e.g., b, nb
+                elif getMarkerContentType == 'N' and marker != 'nb': # N = never, e.g., b
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( 'p' )
@@ -4724,14 +4724,15 @@ class BibleWriter( InternalBible ):
                     if adjText:
                         logger.error( "toUSFXXML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
                     xw.writeLineOpenSelfclose( marker )
-                elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                elif getMarkerContentType == 'S' or marker == 'nb': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( 'p' )
                         haveOpenPara = False
-                    if not adjText: xw.writeLineOpen( originalMarker )
+                    pAttribs = None if originalMarker=='p' else ('sfm',originalMarker) # All paragraphs are p elements
+                    if not adjText: xw.writeLineOpen( 'p', pAttribs )
                     else:
-                        xw.writeLineOpenText( originalMarker, handleInternalTextMarkersForUSFX(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
+                        xw.writeLineOpenText( 'p', handleInternalTextMarkersForUSFX(adjText)+xtra, pAttribs, noTextCheck=True ) # no checks coz might already have embedded XML
                     haveOpenPara = paraJustOpened = True
                 else:
                     #assert getMarkerContentType == 'A' # A = always, e.g.,  ide, mt, h, s, ip, etc.
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 07411b3..d30e8af 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -407,6 +407,12 @@ class USFXXMLBible( Bible ):
         BibleOrgSysGlobals.checkXMLNoText( self.XMLTree, mainLocation, '4f6h' )
         BibleOrgSysGlobals.checkXMLNoTail( self.XMLTree, mainLocation, '1wk8' )
 
+        # Files that we exported have <char style="nd">LORD</char> instead of <nd>LORD</nd>
+        for charElement in list( bookElement.iter( 'char' ) ):
+            if 'style' in charElement.attrib:
+                charElement.tag = charElement.attrib.pop( 'style' )
+                charElement.attrib.pop( 'closed', None )
+
         # Now create our actual book
         self.thisBook = BibleBook( self, BBB )
         self.thisBook.objectNameString = 'USFX XML Bible Book object'
-- 
2.43.0


From 47fad3ce1209e6a61d01b8dcd0079db6ec130538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 39/82] fix: OSIS export keeps all verse text inside paragraphs
 or lines, and the importer reads quoted words, OT quotations and book names
 there

---
 BibleOrgSys/BibleWriter.py          | 28 +++++++++++++++--
 BibleOrgSys/Formats/OSISXMLBible.py | 48 +++++++++++++++++++++++++++++
 2 files changed, 74 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index bfe22c5..3fcad19 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5017,6 +5017,7 @@ class BibleWriter( InternalBible ):
                 if '\\sig ' in adjText: adjText = checkOSISTextHelper('sig',adjText).replace('\\sig ','<signed>').replace('\\sig*','</signed>')
                 if '\\it ' in adjText: adjText = checkOSISTextHelper('it',adjText).replace('\\it ','<hi type="italic">').replace('\\it*','</hi>')
                 if '\\bd ' in adjText: adjText = checkOSISTextHelper('bd',adjText).replace('\\bd ','<hi type="bold">').replace('\\bd*','</hi>')
+                if '\\qt ' in adjText: adjText = checkOSISTextHelper('qt',adjText).replace('\\qt ','<seg type="otPassage">').replace('\\qt*','</seg>')
                 if '\\em ' in adjText: adjText = checkOSISTextHelper('em',adjText).replace('\\em ','<hi type="bold">').replace('\\em*','</hi>')
                 if '\\sc ' in adjText: adjText = checkOSISTextHelper('sc',adjText).replace('\\sc ','<hi type="SMALLCAPS">').replace('\\sc*','</hi>') # XXXXXX temp …
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the OSIS (for now at least)
@@ -5295,9 +5296,21 @@ class BibleWriter( InternalBible ):
                     haveOpenParagraph = False
             # end of toOSISXML.closeAnyOpenParagraph
 
+            def openParagraphIfNeeded():
+                """ Open a <p> if there's none open (because text can only be in some kind of paragraph). """
+                nonlocal haveOpenParagraph, haveOpenSection
+                if not haveOpenParagraph:
+                    if not haveOpenSection:
+                        writerObject.writeLineOpen( 'div', ('type', "section") )
+                        haveOpenSection = True
+                    writerObject.writeLineOpen( 'p' )
+                    haveOpenParagraph = True
+            # end of toOSISXML.openParagraphIfNeeded
+
             def closeAnyOpenLG():
                 """ Close a <lg> if it's open. """
                 nonlocal haveOpenLG
+                closeAnyOpenL()
                 if haveOpenLG:
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "closeAnyOpenLG", toOSISGlobals['verseRef'] )
                     writerObject.writeLineClose( 'lg' )
@@ -5423,7 +5436,6 @@ class BibleWriter( InternalBible ):
                     if not haveOpenL: closeAnyOpenLG()
                     V = text
                     writeVerseStart( writerObject, BBB, chapterRef, verseNumberString )
-                    closeAnyOpenL()
 
                 elif marker in ('ms1','ms2','ms3','ms4',):
                     if haveOpenParagraph:
@@ -5486,7 +5498,7 @@ class BibleWriter( InternalBible ):
                     adjustedText = processXRefsAndFootnotes( text, extras )
                     writerObject.writeLineOpenText( 'p', checkOSISText(adjustedText), noTextCheck=True ) # Sometimes there's text
                     haveOpenParagraph = True
-                elif marker in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
+                elif marker in ('ili1','ili2','ili3','ili4',) or ( marker in ('li1','li2','li3','li4',) and text ):
                     if not haveOpenList:
                         writerObject.writeLineOpen( 'list' )
                         haveOpenList = True
@@ -5510,7 +5522,17 @@ class BibleWriter( InternalBible ):
                 elif marker=='m': # Margin/Flush-left paragraph
                     closeAnyOpenL()
                     closeAnyOpenLG()
+                    openParagraphIfNeeded()
                     if text: writerObject.writeLineText( checkOSISText(text), noTextCheck=True )
+                elif marker in USFM_BIBLE_PARAGRAPH_MARKERS: # e.g., pi1 or li1
+                    closeAnyOpenLG()
+                    closeAnyOpenParagraph()
+                    if not haveOpenSection:
+                        writerObject.writeLineOpen( 'div', ('type', "section") )
+                        haveOpenSection = True
+                    adjustedText = processXRefsAndFootnotes( text, extras )
+                    writerObject.writeLineOpenText( 'p', checkOSISText(adjustedText), ('type','x-'+marker), noTextCheck=True ) # Sometimes there's text
+                    haveOpenParagraph = True
                 elif marker in ('b','ib'): # Blank line
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'b', BBB, C, V )
                     if self.doExtraChecking: assert not text and not extras
@@ -5520,6 +5542,8 @@ class BibleWriter( InternalBible ):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'nb', BBB, C, V ); halt
                     if self.doExtraChecking: assert not text and not extras
                     ignoredMarkers.add( marker )
+                    closeAnyOpenLG()
+                    openParagraphIfNeeded()
                 else:
                     if text:
                         logger.critical( "toOSIS: {} lost text in {} field in {} {}:{} {!r}".format( self.abbreviation, marker, BBB, C, V, text ) )
diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index eef9ff2..7992c68 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1349,6 +1349,36 @@ class OSISXMLBible( Bible ):
     # end of validateTransChange
 
 
+    def validateQuotedText( self, thisBook, element, location, verseMilestone, loadErrors ):
+        """
+        Handle a (non-milestone) q element within a paragraph or line,
+            e.g., the words of Jesus: <q who="Jesus" marker="">…</q>
+
+        Also handles the tail.
+        """
+        assert isinstance( thisBook, BibleBook )
+        isJesus = element.get( 'who' ) == 'Jesus'
+        thisBook.appendToLastLine( '\\wj {}'.format( clean(element.text) or '' ) if isJesus else clean(element.text) or '' )
+        for subelement in element:
+            sublocation = "validateQuotedText: {} of {}".format( subelement.tag, location )
+            if subelement.tag == self.OSISNameSpace+'note':
+                self.validateCrossReferenceOrFootnote( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == self.OSISNameSpace+'hi':
+                self.validateHighlight( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == self.OSISNameSpace+'w':
+                self.validateAndLoadWord( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == self.OSISNameSpace+'divineName':
+                self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == self.OSISNameSpace+'transChange':
+                self.validateTransChange( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            else:
+                logging.error( "q7t2 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
+                loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (q7t2)".format( subelement.tag, subelement.text, location, verseMilestone ) )
+        if isJesus: thisBook.appendToLastLine( '\\wj*' )
+        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) ) # Just ignore XML spacing characters
+    # end of OSISXMLBible.validateQuotedText
+
+
     def validateVerseElement( self, thisBook, element, verseMilestone, chapterMilestone, locationDescription, loadErrors ):
         """
         Check/validate and process a verse element.
@@ -2512,6 +2542,21 @@ class OSISXMLBible( Bible ):
                             self.validateAndLoadWord( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "wordStuff", repr(wordStuff), sublocation, verseMilestone, BibleOrgSysGlobals.elementStr(subelement) )
                             #if wordStuff: thisBook.appendToLastLine( wordStuff )
+                        elif sub2element.tag == OSISXMLBible.OSISNameSpace+'q':
+                            sub2location = "validateLG: q of l of " + locationDescription
+                            self.validateQuotedText( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
+                        elif sub2element.tag == OSISXMLBible.OSISNameSpace+'reference' and sub2element.get('type') == 'x-bookName':
+                            sub2location = "validateLG: reference of l of " + locationDescription
+                            BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location+" at "+verseMilestone, 'vbs5', loadErrors )
+                            thisBook.appendToLastLine( '\\bk {}\\bk*'.format( clean(sub2element.text) ) )
+                            if sub2element.tail and sub2element.tail.strip(): # Just ignore XML spacing characters
+                                thisBook.appendToLastLine( clean(sub2element.tail) )
+                        elif sub2element.tag == OSISXMLBible.OSISNameSpace+'transChange':
+                            sub2location = "validateLG: transChange of l of " + locationDescription
+                            self.validateTransChange( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
+                        elif sub2element.tag == OSISXMLBible.OSISNameSpace+'seg':
+                            sub2location = "validateLG: seg of l of " + locationDescription
+                            self.validateAndLoadSEG( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
                         else:
                             logging.error( "4j12 Unprocessed {!r} sub2element ({}) in {} at {}".format( sub2element.tag, sub2element.text, sublocation, verseMilestone ) )
                             loadErrors.append( "Unprocessed {!r} sub2element ({}) in {} at {} (4j12)".format( sub2element.tag, sub2element.text, sublocation, verseMilestone ) )
@@ -2843,6 +2888,9 @@ class OSISXMLBible( Bible ):
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
                     sublocation = "validateParagraph: seg of " + locationDescription
                     self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+                elif subelement.tag == OSISXMLBible.OSISNameSpace+'q':
+                    sublocation = "validateParagraph: q of " + locationDescription
+                    self.validateQuotedText( thisBook, subelement, sublocation, verseMilestone, loadErrors )
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'transChange':
                     sublocation = "validateParagraph: transChange of " + locationDescription
                     self.validateTransChange( thisBook, subelement, sublocation, verseMilestone, loadErrors )
-- 
2.43.0


From ee5a9539dd8634f73d8dbe2e0cd243a46d65712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 40/82] fix: USX2 export put the verses after a \nb marker
 outside of any paragraph

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 3fcad19..59c3699 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4214,7 +4214,7 @@ class BibleWriter( InternalBible ):
                     if not adjText: logger.warning( "toUSX2XML: Missing text for {}".format( marker ) ); continue
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                     xw.writeLineText( handleInternalTextMarkersForUSX2(adjText)+xtra, noTextCheck=True ) # no checks coz might already have embedded XML
-                elif getMarkerContentType == 'N': # N = never, e.g., b, nb
+                elif getMarkerContentType == 'N' and marker != 'nb': # N = never, e.g., b -- but verses can follow in a nb paragraph
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( 'para' )
@@ -4222,7 +4222,7 @@ class BibleWriter( InternalBible ):
                     if adjText:
                         logger.error( "toUSX2XML: {} {}:{} has a {} line containing text ({!r}) that was ignored".format( BBB, C, V, originalMarker, adjText ) )
                     xw.writeLineOpenSelfclose( 'para', ('style',marker) )
-                elif getMarkerContentType == 'S': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
+                elif getMarkerContentType == 'S' or marker == 'nb': # S = sometimes, e.g., p,pi,q,q1,q2,q3,q4,m
                     if haveOpenPara:
                         xw.removeFinalNewline( suppressFollowingIndent=True )
                         xw.writeLineClose( 'para' )
-- 
2.43.0


From f34f163c5c25628df73a51f6744ba71476386f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 41/82] fix: line breaks and indentation in USX files got into
 the text of verses and notes

---
 BibleOrgSys/Formats/USXXMLBibleBook.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBibleBook.py b/BibleOrgSys/Formats/USXXMLBibleBook.py
index 1fa408e..6440e91 100755
--- a/BibleOrgSys/Formats/USXXMLBibleBook.py
+++ b/BibleOrgSys/Formats/USXXMLBibleBook.py
@@ -201,6 +201,7 @@ class USXXMLBibleBook( BibleBook ):
                 if verseNumberElement.tail:
                     vText = verseNumberElement.tail
                     if vText[0]=='\n': vText = vText.lstrip() # Paratext puts cross references on a new line
+                    if '\n' in vText: vText = vText.rstrip() # There might be some indentation after the newline
                     if vText:
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(vText) )
                         self.appendToLastLine( vText )
@@ -278,7 +279,7 @@ class USXXMLBibleBook( BibleBook ):
             if charElement.tail:
                 charTail = charElement.tail
                 if charTail[0]=='\n': charTail = charTail.lstrip() # Paratext puts footnote parts on new lines
-                if charTail and charTail[-1] in ('\n','\t'): charTail = charTail.rstrip()
+                if '\n' in charTail or charTail.endswith( '\t' ): charTail = charTail.rstrip() # There might be some indentation after the newline
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "charLine", repr(charLine), "charStyle", repr(charStyle), "charTail", repr(charTail) )
             if BibleOrgSysGlobals.strictCheckingFlag:
                 assert '\n' not in charLine
@@ -366,7 +367,7 @@ class USXXMLBibleBook( BibleBook ):
                 #if '\n' in noteElement.tail: halt
                 noteTail = noteElement.tail
                 if noteTail[0] in ('\n','\t'): noteTail = noteTail.lstrip() # Paratext puts multiple cross-references on new lines
-                if noteTail and noteTail[-1] in ('\n','\t'): noteTail = noteTail.rstrip()
+                if '\n' in noteTail or noteTail.endswith( '\t' ): noteTail = noteTail.rstrip() # There might be some indentation after the newline
                 noteField += noteTail
 
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "  loadNoteField returning noteField: {!r}".format( noteField ) )
@@ -405,6 +406,8 @@ class USXXMLBibleBook( BibleBook ):
             # Now process the paragraph text (or write a paragraph marker anyway)
             paragraphText = paragraphXML.text if paragraphXML.text and paragraphXML.text.strip() else ''
             if version is None: paragraphText = paragraphText.rstrip() # Don't need to strip extra spaces in v2
+            if '\n' in paragraphText: # Then it includes the line-break and the indentation before a verse or note on the next line
+                paragraphText = ' '.join( paragraphText.split() ) + (' ' if len(paragraphXML) and paragraphXML[0].tag not in ('verse','note') else '')
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "USXXMLBibleBook.load newLine: {!r} {!r}".format( paragraphStyle, paragraphText ) )
             self.addLine( paragraphStyle, paragraphText )
 
-- 
2.43.0


From 224e3409cd4cf930f5346eec5c717ab91443b082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 42/82] fix: USX3 export lost the text of wordlist entries that
 have attributes

---
 BibleOrgSys/Formats/USXXMLBible.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 63f64d2..aa9d76b 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -510,7 +510,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
         """
         Writes a book to the filesFolder.
         """
-        attributeStringStarts = set() # Set of start of string of first /ww attributes (from /w after |)
 
         def _handleInternalTextMarkersForUSX( originalText:str ) -> str:
             """
@@ -555,9 +554,6 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 endCharMarker = f'\\+{charMarker}*'
                 if endCharMarker in adjText:
                     adjText = adjText.replace( endCharMarker, '</char>' )
-                if charMarker == 'w': # We may have some cleaning up to do
-                    for attributeStringStart in attributeStringStarts:
-                        adjText = adjText.replace( f'<char style="w">{attributeStringStart}=', f'<char style="w" {attributeStringStart}=') # The end marker is already in there
             if '\\z' in adjText:
                 # Handle custom (character) markers
                 while True:
@@ -864,23 +860,16 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                     elif extraType == 'vp':
                         extra = f"\\vp {extraText}\\vp*" # Will be handled later
                     elif extraType == 'ww':
-                        # NOTE: The insert point for \ww fields is at the end of the previous \w field (immediately before the \w*)
-                        #       However, if it's only a Strongs number, the \w field was removed completely
-                        # if BBB == 'RUT': print( f"{BBB} {C} {V} ww is {extra} with '{adjText}'"); halt
+                        # NOTE: The \w field was removed completely, and the insert point for \ww fields is immediately after the word
                         ixPipe = extraText.find('|')
                         assert ixPipe != -1
-                        if extraText.count('=')==1 and '|strong="' in extraText: # e.g., 'And|strong="H1121"'
-                            # dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"Got ww extra with only Strongs: {adjText=} {adjIndex=} {ixPipe=}" )
-                            # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
-                            # But note that the word is already in the text (and the index points to the end of it)
-                            # Also note that ixPipe is actually the word length
-                            extra = f'<char style="w" {extraText[ixPipe+1:]}>{extraText[:ixPipe]}</char>'
-                            adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
-                            offset -= len(extra) - ixPipe
-                            extra = None # to subvert normal processing at bottom of this loop
-                        else: # Assume a remaining \w field and add the extra info to it
-                            extra = f'{extraText[ixPipe+1:]}>'
-                            attributeStringStarts.add(extra[:6])
+                        # We need to recreate the \w (or \w+) field that was removed, e.g., <char style="w" strong="H1121">And</char>
+                        # But note that the word is already in the text (and the index points to the end of it)
+                        # Also note that ixPipe is actually the word length
+                        extra = f'<char style="w" {extraText[ixPipe+1:]}>{extraText[:ixPipe]}</char>'
+                        adjText = f'{adjText[:adjIndex-ixPipe]}{extra}{adjText[adjIndex:]}'
+                        offset -= len(extra) - ixPipe
+                        extra = None # to subvert normal processing at bottom of this loop
                     else:
                         dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"toUSXXML._handleNotesAndExtras: Unexpected {extraType=}" )
                         extra = f"--UNKNOWN {extraType} EXTRA--"
-- 
2.43.0


From 0cd304efac5c7ac89347e80c03bb9df63b36c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 43/82] fix: theWord export kept wordlist attributes and the
 importer lost the text of a verse that starts a paragraph

---
 BibleOrgSys/Formats/theWordBible.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index cb4b8f3..6af939b 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -461,6 +461,7 @@ def theWordAdjustLine( BBB:str, C:str, V:str, originalLine:str ):
         line = removeUSFMCharacterField( 'fig', line, closedFlag=True ) # Remove figures
         line = removeUSFMCharacterField( 'str', line, closedFlag=True ) # Remove Strong's numbers
         line = removeUSFMCharacterField( 'sem', line, closedFlag=True ) # Remove semantic tagging
+        line = re.sub( r'(\\\+?w [^\\|]*)\|[^\\]*(\\\+?w\*)', r'\1\2', line ) # Remove the attributes of wordlist entries
         replacements = (
             ( ('add',), '<FI>','<Fi>' ),
             ( ('qt',), '<FO>','<Fo>' ),
@@ -786,7 +787,12 @@ def handleRTFLine( myName, BBB:str, C:str, V:str, originalLine:str, bookObject,
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "marker", marker )
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "leftovers", repr(leftovers) )
                         assert marker in ('mt1','mt2','mt3', 's1','s2','s3', 'q1','q2','q3', 'r')
-                    if BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( marker ):
+                    if marker in ('p','m','q1','q2','q3','q4') and not writtenV: # This paragraph or line starts with the verse
+                        if C==1 and V==1 and not appendedCFlag: bookObject.addLine( 'c', str(C) ); appendedCFlag = True
+                        bookObject.addLine( marker, '' )
+                        bookObject.addLine( 'v', '{} {}'.format( V, bits[1] ) )
+                        writtenV = True
+                    elif BibleOrgSysGlobals.loadedUSFMMarkers.isNewlineMarker( marker ):
                         bookObject.addLine( marker, bits[1] )
                     elif not writtenV:
                         bookObject.addLine( 'v', '{} {}'.format( V, segment ) )
-- 
2.43.0


From 03b79861ab294d9290f8664abba464ce9dbd3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 44/82] fix: Forge importer failed on verse bridges and parts
 of verses

---
 BibleOrgSys/Formats/ForgeForSwordSearcherBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
index a76fb92..edd5284 100755
--- a/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
+++ b/BibleOrgSys/Formats/ForgeForSwordSearcherBible.py
@@ -341,7 +341,7 @@ class ForgeForSwordSearcherBible( Bible ):
                             bookCode, CVString = B_CV_Bits
                             chapterNumberString, verseNumberString = CVString.split( ':' )
                             chapterNumber = int( chapterNumberString )
-                            verseNumber = int( verseNumberString )
+                            verseNumber = int( re.match( r'\d+', verseNumberString ).group() ) # Could be a verse bridge or part of a verse, e.g., 3-4 or 3b
                             if bookCode != lastBookCode: # We've started a new book
                                 if bookCode in ('Ge',): BBB = 'GEN'
                                 elif bookCode in ('Le',): BBB = 'LEV'
-- 
2.43.0


From 81c1411325e8613239c6ec26620efc909f81ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 45/82] fix: module exports lost verses that are divided into
 parts

---
 BibleOrgSys/Formats/ESwordBible.py  | 2 +-
 BibleOrgSys/Formats/MyBibleBible.py | 2 +-
 BibleOrgSys/Formats/MySwordBible.py | 2 +-
 BibleOrgSys/Formats/theWordBible.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/ESwordBible.py b/BibleOrgSys/Formats/ESwordBible.py
index 3ccd113..89c46b5 100755
--- a/BibleOrgSys/Formats/ESwordBible.py
+++ b/BibleOrgSys/Formats/ESwordBible.py
@@ -1494,7 +1494,7 @@ def createESwordBibleModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # The verse might be divided into 3a and 3b
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toESword: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MyBibleBible.py b/BibleOrgSys/Formats/MyBibleBible.py
index 08cc1f8..e878c32 100755
--- a/BibleOrgSys/Formats/MyBibleBible.py
+++ b/BibleOrgSys/Formats/MyBibleBible.py
@@ -1119,7 +1119,7 @@ def createMyBibleModule( self, outputFolder, controlDict ) -> bool:
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # The verse might be divided into 3a and 3b
                         verseData, context = result
                     except KeyError: # Just ignore missing verses
                         logging.warning( "BibleWriter.toMyBible: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/MySwordBible.py b/BibleOrgSys/Formats/MySwordBible.py
index 5ea2de2..5f1e256 100755
--- a/BibleOrgSys/Formats/MySwordBible.py
+++ b/BibleOrgSys/Formats/MySwordBible.py
@@ -495,7 +495,7 @@ def createMySwordModule( self, outputFolder, controlDict ):
                 verseData = None
                 if bkData:
                     try:
-                        result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                        result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # The verse might be divided into 3a and 3b
                         verseData, context = result
                     except KeyError: # Missing verses
                         logging.warning( "BibleWriter.createMySwordModule: missing source verse at {} {}:{}".format( BBB, C, V ) )
diff --git a/BibleOrgSys/Formats/theWordBible.py b/BibleOrgSys/Formats/theWordBible.py
index 6af939b..8b4dd8a 100755
--- a/BibleOrgSys/Formats/theWordBible.py
+++ b/BibleOrgSys/Formats/theWordBible.py
@@ -1207,7 +1207,7 @@ def createTheWordModule( self, outputFolder, controlDict ):
             verseData, composedLine = None, ''
             if bkData:
                 try:
-                    result = bkData.getContextVerseData( (BBB,str(C),str(V),) )
+                    result = bkData.getContextVerseData( (BBB,str(C),str(V),), complete=True ) # The verse might be divided into 3a and 3b
                     verseData, context = result
                 except KeyError:
                     logging.warning( "BibleWriter.totheWord: missing source verse at {} {}:{}".format( BBB, C, V ) )
-- 
2.43.0


From 6e4049e3181341e16337c1250e44aee99abf696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 46/82] fix: BCV importer made an extra verse out of each verse
 line that opens a nested marker

---
 BibleOrgSys/Formats/BCVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/BCVBible.py b/BibleOrgSys/Formats/BCVBible.py
index e515071..a264b09 100755
--- a/BibleOrgSys/Formats/BCVBible.py
+++ b/BibleOrgSys/Formats/BCVBible.py
@@ -537,7 +537,7 @@ class BCVBibleBook( BibleBook ):
                     if line and line[-1]=='\n': line = line[:-1] # Remove trailing newline character
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, CV, "line", line )
                     assert line and line[0]=='\\'
-                    ixEQ = line.find( '=' )
+                    ixEQ = line.find( '=', 3 if line.startswith('\\v=<<') else 0 ) # The v= marker contains an equals sign itself
                     ixLL = line.find( '<<' )
                     if ixEQ == -1: ixEQ = LARGE_DUMMY_VALUE
                     if ixLL == -1: ixLL = LARGE_DUMMY_VALUE
-- 
2.43.0


From 694841a0dac8c2f969a2c4ebfa182e12e7ddaba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 47/82] fix: OSIS and Zefania exports wrote an error message
 instead of the markers of plain wordlist entries

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 59c3699..c435c88 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5020,6 +5020,7 @@ class BibleWriter( InternalBible ):
                 if '\\qt ' in adjText: adjText = checkOSISTextHelper('qt',adjText).replace('\\qt ','<seg type="otPassage">').replace('\\qt*','</seg>')
                 if '\\em ' in adjText: adjText = checkOSISTextHelper('em',adjText).replace('\\em ','<hi type="bold">').replace('\\em*','</hi>')
                 if '\\sc ' in adjText: adjText = checkOSISTextHelper('sc',adjText).replace('\\sc ','<hi type="SMALLCAPS">').replace('\\sc*','</hi>') # XXXXXX temp …
+                adjText = adjText.replace('\\w ','').replace('\\w*','') # A wordlist entry is just part of the text
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the OSIS (for now at least)
                     ix1 = adjText.find( '\\fig ' )
                     ix2 = adjText.find( '\\fig*' )
@@ -5798,6 +5799,7 @@ class BibleWriter( InternalBible ):
                 if '\\bd ' in adjText: adjText = checkZefaniaTextHelper('bd',adjText).replace('\\bd ','<STYLE fs="bold">').replace('\\bd*','</STYLE>')
                 if '\\em ' in adjText: adjText = checkZefaniaTextHelper('em',adjText).replace('\\em ','<STYLE fs="bold">').replace('\\em*','</STYLE>') # ???
                 if '\\sc ' in adjText: adjText = checkZefaniaTextHelper('sc',adjText).replace('\\sc ','<STYLE fs="small-caps">').replace('\\sc*','</STYLE>')
+                adjText = adjText.replace('\\w ','').replace('\\w*','') # A wordlist entry is just part of the text
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the Zefania (for now at least)
                     ix1 = adjText.find( '\\fig ' )
                     ix2 = adjText.find( '\\fig*' )
-- 
2.43.0


From 9079d02d9226e45d6a5010efca99e47ebd14f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 48/82] fix: a Scripture Burrito could not load a single book
 on demand

---
 BibleOrgSys/Formats/ScriptureBurritoBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/ScriptureBurritoBible.py b/BibleOrgSys/Formats/ScriptureBurritoBible.py
index e03fc74..37c383b 100755
--- a/BibleOrgSys/Formats/ScriptureBurritoBible.py
+++ b/BibleOrgSys/Formats/ScriptureBurritoBible.py
@@ -421,7 +421,7 @@ class ScriptureBurritoBible( Bible ):
     def load( self ):
         self.loadBooks()
 
-    def loadBook( self, BBB:str, filename ) -> None:
+    def loadBook( self, BBB:str, filename=None ) -> None:
         """
         Load the USFM or USX (XML) Bible text file.
         """
-- 
2.43.0


From 708276c32c62ce52fe80b38988415ee715b56484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 49/82] fix: a GoBible that was loaded once could not be loaded
 again

---
 BibleOrgSys/Formats/GoBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/GoBible.py b/BibleOrgSys/Formats/GoBible.py
index 1984b3f..cd735cb 100755
--- a/BibleOrgSys/Formats/GoBible.py
+++ b/BibleOrgSys/Formats/GoBible.py
@@ -440,7 +440,7 @@ class GoBible( Bible ):
         """
         vPrint( 'Normal', DEBUGGING_THIS_MODULE, _("Loading {} from {}…").format( self.name, self.sourceFolder ) )
 
-        if not self.preloadDone: self.preload()
+        if not self.preloadDone or self.unzippedFolderpath is None: self.preload() # The unzipped files are removed after each load
 
         if self.bookList:
             if BibleOrgSysGlobals.maxProcesses > 1 \
-- 
2.43.0


From a3b5c22f033a36c95f50eb8b3a046fccc59dc21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 50/82] fix: text after a paragraph marker in a YET verse was
 duplicated

---
 BibleOrgSys/Formats/YETBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/YETBible.py b/BibleOrgSys/Formats/YETBible.py
index 2b9be33..fa44563 100755
--- a/BibleOrgSys/Formats/YETBible.py
+++ b/BibleOrgSys/Formats/YETBible.py
@@ -437,7 +437,7 @@ class YETBible( Bible ):
                 bits = verseString.split( '\\\\' ) # Split on paragraph markers (but not character markers)
                 for j,bit in enumerate(bits):
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "loop", j, repr(bit), repr(verseString) )
-                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + verseString.rstrip() )
+                    if j==0: thisBook.addLine( 'v', verseNumberString + ' ' + bit.rstrip() )
                     else:
                         if bit[1]==' ': marker, bit = bit[0], bit[2:]
                         elif bit[2]==' ': marker, bit = bit[0:2], bit[3:]
-- 
2.43.0


From d44c6e80b08363b403dcdbd6a2688423bf14f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 51/82] fix: CSV Bibles that give their books by number could
 not be loaded

---
 BibleOrgSys/Formats/CSVBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/CSVBible.py b/BibleOrgSys/Formats/CSVBible.py
index efb2691..5a92aea 100755
--- a/BibleOrgSys/Formats/CSVBible.py
+++ b/BibleOrgSys/Formats/CSVBible.py
@@ -338,7 +338,7 @@ class CSVBible( Bible ):
                     BBB = BibleOrgSysGlobals.loadedBibleBooksCodes.getBBBFromText( booknameString )
                     if BBB:
                         bookNumber = BibleOrgSysGlobals.loadedBibleBooksCodes.getReferenceNumber( BBB )
-                if lastBookNumber==-1 and not BBB:
+                if lastBookNumber==-1 and not BBB and bookNumber==-1:
                     dPrint( 'Never', DEBUGGING_THIS_MODULE, f"Skipping the rest of introductory line because no BBB yet: {lineCount}: '{line}'" )
                     continue
 
-- 
2.43.0


From 8d42a91619b5c535b8e32756c0530f45e8933343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 52/82] fix: VPL Bibles with a reference on each line could not
 be loaded

---
 BibleOrgSys/Formats/VPLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/VPLBible.py b/BibleOrgSys/Formats/VPLBible.py
index d53e9b2..bc66125 100755
--- a/BibleOrgSys/Formats/VPLBible.py
+++ b/BibleOrgSys/Formats/VPLBible.py
@@ -754,7 +754,7 @@ class VPLBible( Bible ):
                             thisBook.addLine( 'p', '' )
                             verseText = verseText[1:].lstrip()
 
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, vText ) )
+                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, '{} {}:{} = {!r}'.format( BBB, chapterNumberString, verseNumberString, verseText ) )
                         thisBook.addLine( 'v', f'{verseNumberString} {verseText}' )
                         lastVerseText = verseText
                         lastVerseNumber = verseNumber
-- 
2.43.0


From 9be09a29fff7977a1d3629299ae21a127b064eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 53/82] fix: searching failed without the main text, missed
 notes, and gave wrong positions

---
 BibleOrgSys/Internals/InternalBible.py | 48 ++++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/BibleOrgSys/Internals/InternalBible.py b/BibleOrgSys/Internals/InternalBible.py
index eb3c5c5..0cd6f97 100755
--- a/BibleOrgSys/Internals/InternalBible.py
+++ b/BibleOrgSys/Internals/InternalBible.py
@@ -2515,13 +2515,22 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
         if ourFindText.lower().startswith( 'regex:' ):
             optionsDict['regexFlag'] = True
             ourFindText = ourFindText[6:]
-            compiledFindText = re.compile( ourFindText )
         if optionsDict['ignoreDiacriticsFlag']: ourFindText = BibleOrgSysGlobals.removeAccents( ourFindText )
+        if optionsDict['regexFlag']: # Case is handled by the compiled expression because lower() would change things like \S
+            compiledFindText = re.compile( ourFindText, re.IGNORECASE if optionsDict['caselessFlag'] else 0 )
         if optionsDict['caselessFlag']: ourFindText = ourFindText.lower()
         searchLen = len( ourFindText )
         if BibleOrgSysGlobals.debugFlag: assert searchLen
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Searching for {!r} in {} loaded books".format( ourFindText, len(self) ) )
 
+        def getOriginalSpan( origIndexes, ix:int, ixAfter:int ):
+            """ Convert indexes into the searched text to indexes into the original text. """
+            if origIndexes is None: return ix, ixAfter # The lengths are the same
+            if ixAfter == ix: # Nothing was matched
+                origIx = origIndexes[ix] if ix<len(origIndexes) else origIndexes[-1]+1
+                return origIx, origIx
+            return origIndexes[ix], origIndexes[ixAfter-1]+1
+
         # Now do the actual search
         resultSummaryDict = { 'searchedBookList':[], 'foundBookList':[], }
         resultList = [] # Contains 4-tuples or 5-tuples -- first entry is the SimpleVerseKey
@@ -2532,7 +2541,7 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                 #self.loadBookIfNecessary( BBB )
                 resultSummaryDict['searchedBookList'].append( BBB )
                 C, V = '-1', '-1' # So first/id line starts at -1:0
-                marker = None
+                marker = lastParagraphMarker = None
                 for lineEntry in bookObject:
                     if marker in BibleOrgSysGlobals.USFMParagraphMarkers:
                         lastParagraphMarker = marker
@@ -2557,21 +2566,19 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
 
                         # Get our text to search
                         origTextToBeSearched = lineEntry.getFullText() if optionsDict['includeExtrasFlag'] else cleanText
-                        if C != '0' and not optionsDict['includeMainTextFlag']:
+                        if C != '0' and not optionsDict['includeMainTextFlag'] and not ourMarkerList:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Got {!r} but  don't include main text".format( origTextToBeSearched ) )
                             if marker in ('v~','p~') or marker in BibleOrgSysGlobals.USFMParagraphMarkers:
-                                origTextToBeSearched = ''
-                                if origTextToBeSearched != cleanText: # we must have extras -- we need to remove the main text
+                                origTextToBeSearched = '' # We need to remove the main text
+                                if optionsDict['includeExtrasFlag'] and lineEntry.getExtras():
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Got extras" )
-                                    assert optionsDict['includeExtrasFlag']
-                                    origTextToBeSearched = ''
                                     for extra in lineEntry.getExtras():
                                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "extra", extra )
                                         extraStart = ''
                                         if optionsDict['includeMarkerTextFlag']:
                                             eTypeIndex = BOS_EXTRA_TYPES.index( extra.getType() )
                                             extraStart = '\\{} '.format( BOS_EXTRA_MARKERS[eTypeIndex] )
-                                        origTextToBeSearched += ' ' if origTextToBeSearched else '' + extraStart + extra.getText()
+                                        origTextToBeSearched += ( ' ' if origTextToBeSearched else '' ) + extraStart + extra.getText()
                                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  Now", repr(origTextToBeSearched) )
                         if optionsDict['includeMarkerTextFlag']:
                             origTextToBeSearched = '\\{} {}'.format( marker, origTextToBeSearched )
@@ -2580,22 +2587,26 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                         if optionsDict['ignoreDiacriticsFlag']: textToBeSearched = BibleOrgSysGlobals.removeAccents( textToBeSearched )
                         if optionsDict['caselessFlag']: textToBeSearched = textToBeSearched.lower()
                         textLen = len( textToBeSearched )
+                        # Some characters (like ligatures) become two, so we need to know which original character each one came from
+                        origIndexes = None if textLen==len(origTextToBeSearched) \
+                                        else [n for n,char in enumerate(origTextToBeSearched) for _char in (BibleOrgSysGlobals.removeAccents(char) if optionsDict['ignoreDiacriticsFlag'] else char.lower())]
 
                         if optionsDict['regexFlag']: # ignores wordMode flag
                             for match in compiledFindText.finditer( textToBeSearched ):
                                 ix, ixAfter = match.span()
+                                origIx, origIxAfter = getOriginalSpan( origIndexes, ix, ixAfter )
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
-                                    contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
-                                    contextAfter = origTextToBeSearched[ixAfter:ixAfter+optionsDict['contextLength']]
+                                    contextBefore = origTextToBeSearched[max(0,origIx-optionsDict['contextLength']):origIx]
+                                    contextAfter = origTextToBeSearched[origIxAfter:origIxAfter+optionsDict['contextLength']]
                                 else: contextBefore = contextAfter = None
 
                                 ixHyphen = V.find( '-' )
                                 if ixHyphen != -1: V = V[:ixHyphen] # Remove verse bridges
-                                resultTuple = (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
-                                                                    origTextToBeSearched[ix:ixAfter], contextAfter, ) \
+                                resultTuple = (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore,
+                                                                    origTextToBeSearched[origIx:origIxAfter], contextAfter, ) \
                                             if optionsDict['caselessFlag'] else \
-                                                (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
+                                                (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
                         else: # not regExp
@@ -2615,19 +2626,20 @@ _pickle.PicklingError: Can't pickle <class 'BibleOrgSys.Reference.BibleBooksName
                                     if ixAfter<textLen and textToBeSearched[ixAfter].isalpha(): continue
                                 elif optionsDict['wordMode'] == 'EndsLine':
                                     if ixAfter<textLen: continue
+                                origIx, origIxAfter = getOriginalSpan( origIndexes, ix, ixAfter )
 
                                 if optionsDict['contextLength']: # Find the context in the original (fully-cased) string
-                                    contextBefore = origTextToBeSearched[max(0,ix-optionsDict['contextLength']):ix]
-                                    contextAfter = origTextToBeSearched[ixAfter:ixAfter+optionsDict['contextLength']]
+                                    contextBefore = origTextToBeSearched[max(0,origIx-optionsDict['contextLength']):origIx]
+                                    contextAfter = origTextToBeSearched[origIxAfter:origIxAfter+optionsDict['contextLength']]
                                 else: contextBefore = contextAfter = None
 
                                 ixHyphen = V.find( '-' )
                                 if ixHyphen != -1: V = V[:ixHyphen] # Remove verse bridges
                                 #adjMarker = None if marker=='v~' else marker # most markers are v~ -- ignore them (for space)
-                                resultTuple = (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore,
-                                                                    origTextToBeSearched[ix:ixAfter], contextAfter, ) \
+                                resultTuple = (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore,
+                                                                    origTextToBeSearched[origIx:origIxAfter], contextAfter, ) \
                                             if optionsDict['caselessFlag'] else \
-                                                (SimpleVerseKey(BBB, C, V, ix), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
+                                                (SimpleVerseKey(BBB, C, V, origIx), lineEntry.getOriginalMarker(), contextBefore, contextAfter, )
                                 resultList.append( resultTuple )
                                 if BBB not in resultSummaryDict['foundBookList']: resultSummaryDict['foundBookList'].append( BBB )
 
-- 
2.43.0


From 03280c39fcfba62f1ba100d7d7b189bf7856fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 54/82] fix: EasyWorship exports gave the length of a book in
 characters, not bytes

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index ae689ed..801d847 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -250,10 +250,11 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         .replace( '“', '"' ).replace( '”', '"' ) \
                         .replace( "‘", "'" ).replace( "’", "'" ) \
                         .replace( '–', '--' ).replace( '—', '--' )
-        bookBytes = zlib.compress( textBuffer.encode( 'utf8' ), ZLIB_COMPRESSION_LEVEL )
+        textBytes = textBuffer.encode( 'utf8' )
+        bookBytes = zlib.compress( textBytes, ZLIB_COMPRESSION_LEVEL )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, hexlify(bookBytes[:20]), bookBytes )
         assert bookBytes[0]==0x78 and bookBytes[1]==0xda # Zlib compression header
-        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBuffer) ) + b'\x08\x00'
+        appendage = b'QK\x03\x04' + struct.pack( '<I', len(textBytes) ) + b'\x08\x00'
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "appendage", len(appendage), hexlify(appendage), appendage )
         assert len(appendage) == 10
         compressedDictionary[BBB] = bookBytes + appendage
-- 
2.43.0


From 89d0640b563554b71df5517ec3b4453a0626c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 55/82] fix: EasyWorship exports put the rest of bridged verses
 only into the last one

---
 BibleOrgSys/Formats/EasyWorshipBible.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/EasyWorshipBible.py b/BibleOrgSys/Formats/EasyWorshipBible.py
index 801d847..954cfff 100755
--- a/BibleOrgSys/Formats/EasyWorshipBible.py
+++ b/BibleOrgSys/Formats/EasyWorshipBible.py
@@ -186,7 +186,7 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
         pseudoESFMData = bookObject._processedLines
 
         textBuffer = ''
-        vBridgeStartInt = vBridgeEndInt = None # For printing missing (bridged) verse numbers
+        vBridgeStartInt = vBridgeEndInt = bridgedVerses = None # For printing missing (bridged) verse numbers
         for entry in pseudoESFMData:
             marker, text = entry.getMarker(), entry.getCleanText()
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
@@ -197,6 +197,7 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
             elif marker == 'v':
                 #V = text.replace( '–', '-' ).replace( '—', '-' ) # Replace endash, emdash with hyphen
                 V = text
+                bridgedVerses = None
                 for bridgeChar in ('-', '–', '—'): # hyphen, endash, emdash
                     ix = V.find( bridgeChar )
                     if ix != -1:
@@ -227,8 +228,9 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "createEasyWorshipBible: handling verse bridge in {} at {} {}:{}-{}" \
                                     .format( BibleObject.abbreviation, BBB, C, vBridgeStartInt, vBridgeEndInt ) )
                     if 1: # new code -- copies the bridged text to all verses
-                        for vNum in range( vBridgeStartInt, vBridgeEndInt+1 ): # Fill in missing verse numbers
-                            textBuffer += ('\r\n\r\n' if textBuffer else '') + '{}:{} ({}) {}'.format( C, vNum, VBridgedText, text )
+                        bridgedVerses, bridgedStartIx, bridgedText = range( vBridgeStartInt, vBridgeEndInt+1 ), len(textBuffer), text
+                        for vNum in bridgedVerses: # Fill in missing verse numbers
+                            textBuffer += ('\r\n\r\n' if textBuffer else '') + '{}:{} ({}) {}'.format( C, vNum, VBridgedText, bridgedText )
                     else: # old code
                         textBuffer += ('\r\n\r\n' if textBuffer else '') + '{}:{} ({}) {}'.format( C, vBridgeStartInt, vBridgeEndInt, text )
                         for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
@@ -242,7 +244,11 @@ def createEasyWorshipBible( BibleObject, outputFolder=None ):
                 if BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert textBuffer # This is a continued part of the verse -- failed with this bad source USFM:
                                         #     \c 1 \v 1 \p These events happened…
-                textBuffer += ' {}'.format( text ) # continuation of the same verse
+                if bridgedVerses: # continuation of bridged verses -- add it to all of them
+                    textBuffer, bridgedText = textBuffer[:bridgedStartIx], '{} {}'.format( bridgedText, text )
+                    for vNum in bridgedVerses:
+                        textBuffer += ('\r\n\r\n' if textBuffer else '') + '{}:{} ({}) {}'.format( C, vNum, VBridgedText, bridgedText )
+                else: textBuffer += ' {}'.format( text ) # continuation of the same verse
             else:
                 ignoredMarkers.add( marker )
         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, textBuffer )
-- 
2.43.0


From 087ad4d2b81aa329cebf353fb9089f4398155a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:59 +0000
Subject: [PATCH 56/82] fix: escape ampersands in the text of XML exports, with
 and without notes

An & in the text gave malformed XML in the USX, USFX, OSIS, Zefania and
Haggai exports, and toUSX3XML raised an exception if that line had notes.
---
 BibleOrgSys/BibleWriter.py          |  6 ++++
 BibleOrgSys/InputOutput/MLWriter.py | 50 +++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c435c88..c712262 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4150,6 +4150,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker in ('v=','cl¤'):
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -4657,6 +4658,7 @@ class BibleWriter( InternalBible ):
             gotVP = None
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, originalMarker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getOriginalMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=' or marker=='c#':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -5343,6 +5345,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
@@ -6020,6 +6023,7 @@ class BibleWriter( InternalBible ):
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 haveNotesFlag = False
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
@@ -6220,6 +6224,7 @@ class BibleWriter( InternalBible ):
             C, V = '-1', '-1' # So first/id line starts at -1:0
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 #if marker in ('id', 'ide', 'h', 'toc1','toc2','toc3', ): pass # Just ignore these metadata markers
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
@@ -6817,6 +6822,7 @@ class BibleWriter( InternalBible ):
             chapterRef = bookRef + '.0'
             for processedBibleEntry in bkData._processedLines: # Process internal Bible data lines
                 marker, text, extras = processedBibleEntry.getMarker(), processedBibleEntry.getAdjustedText(), processedBibleEntry.getExtras()
+                text, extras = MLWriter.escape_ampersands_with_extras( text, extras )
                 if '¬' in marker or marker in BOS_CUSTOM_NESTING_MARKERS or marker=='v=':
                     continue # Just ignore added markers — not needed here
                 if marker in USFM_PRECHAPTER_MARKERS:
diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index 809cfab..a36aedf 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -36,6 +36,7 @@ TODO: Add writeAutoDTD
 
 """
 from gettext import gettext as _
+from copy import copy
 import os
 import logging
 from pathlib import Path
@@ -332,15 +333,50 @@ class MLWriter:
         else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
 
         # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
-        char_strings, adjExtras = [], InternalBibleExtraList()
-        for ix,char in enumerate(rawTextString):
-            if char in ESCAPE_MAP:
-                dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{ix=} {char=}")
-        dPrint( 'Verbose', DEBUGGING_THIS_MODULE, f"{rawTextString=} {char_strings=} {extras=} {adjExtras=}")
-        raise Exception("MLWriter: escape characters with extras NOT WRITTEN YET")
-        return ''.join(char_strings), adjExtras
+        return MLWriter._escape_with_extras( rawTextString, extras, ESCAPE_MAP )
     # end of MLWriter.escape_characters_with_extras static function
 
+    @staticmethod
+    def _escape_with_extras( rawTextString:str, extras:InternalBibleExtraList, escapeMap:dict ) -> tuple[str,InternalBibleExtraList]:
+        """
+        Escapes the characters in the text that are in the map,
+            and returns new extras with their indexes adjusted for that.
+        """
+        char_strings, newIndexes, newIndex = [], [], 0
+        for char in rawTextString:
+            newIndexes.append( newIndex )
+            char_strings.append( escapeMap[char] if char in escapeMap else char )
+            newIndex += len( char_strings[-1] )
+
+        adjExtras = InternalBibleExtraList()
+        for extra in extras:
+            adjExtra = copy( extra ) # Don't change the one that's in the Bible
+            adjExtra.index = newIndexes[extra.index] if extra.index<len(newIndexes) else newIndex
+            adjExtras.append( adjExtra )
+        return ''.join(char_strings), adjExtras
+    # end of MLWriter._escape_with_extras static function
+
+    @staticmethod
+    def escape_ampersands_with_extras( rawTextString:str|None, extras:InternalBibleExtraList|None ) -> tuple[str,InternalBibleExtraList]:
+        """
+        Does & -> &amp; in the text and in any extras,
+            for exporters that add their own markup to the text.
+
+        Extras contain an index number into the text string,
+            so any expansion of the text string must also update those numbers.
+        """
+        if not extras:
+            return rawTextString.replace( '&', '&amp;' ) if rawTextString else rawTextString, extras
+
+        if '&' not in rawTextString and not any( '&' in extra.getText() for extra in extras ):
+            return rawTextString, extras
+
+        escapedText, adjExtras = MLWriter._escape_with_extras( rawTextString, extras, {'&':'&amp;'} )
+        for extra in adjExtras:
+            extra.noteText, extra.cleanNoteText = extra.noteText.replace( '&', '&amp;' ), extra.cleanNoteText.replace( '&', '&amp;' )
+        return escapedText, adjExtras
+    # end of MLWriter.escape_ampersands_with_extras static function
+
     def start( self, lineEndings:str='l', noAutoXML:bool=False, writeBOM:bool=False ) -> None:
         """
         Opens the file and writes a header record to it.
-- 
2.43.0


From 4d732fd549542dc3c955ce895cf4c490a8127e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:30 +0000
Subject: [PATCH 57/82] fix: USFM exports without verse bridges lost the last
 verses of a book that ends with one

---
 BibleOrgSys/BibleWriter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c712262..ce9e3df 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -738,6 +738,10 @@ class BibleWriter( InternalBible ):
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
 
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
+
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
             if self.doExtraChecking:
@@ -911,6 +915,10 @@ class BibleWriter( InternalBible ):
                     else: bookUSFM += '\\{} {}'.format( pseudoMarker,adjValue )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, pseudoMarker, bookUSFM[-200:] )
 
+            if vBridgeStartInt and vBridgeEndInt: # The book ended with a verse bridge
+                for vNum in range( vBridgeStartInt+1, vBridgeEndInt+1 ): # Fill in missing verse numbers
+                    bookUSFM += '\n\\v {}'.format( vNum )
+
             # Adjust the bookUSFM output
             bookUSFM = noisyRegExDeleteAll( bookUSFM, '\\\\str .+?\\\\str\\*' )
             if self.doExtraChecking:
-- 
2.43.0


From f65970b25f7639c1f905d46f64506de9d04f8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:58 +0000
Subject: [PATCH 58/82] fix: a psalm title in OSIS exports was put inside an
 open paragraph of the chapter before

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ce9e3df..2efb9bf 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5466,6 +5466,9 @@ class BibleWriter( InternalBible ):
                     if haveOpenParagraph or haveOpenSection or not haveOpenMajorSection: logger.error( _("toOSIS: Didn't expect major reference 'mr' marker after {}").format(toOSISGlobals['verseRef']) )
                     if text: writerObject.writeLineOpenClose( 'title', checkOSISText(text), ('type',"scope") )
                 elif marker == 'd':
+                    if haveOpenParagraph: # A title can't be inside a paragraph from the previous chapter
+                        closeAnyOpenLG()
+                        closeAnyOpenParagraph()
                     #if BibleOrgSysGlobals.debugFlag:
                         #pass
                     flag = '\\' in text or extras # Set this flag if the text already contains XML formatting
-- 
2.43.0


From 6b22e6c27a2d1f1eb0ceb6aaae6a2e2de7c55a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 59/82] fix: ampersands in the notes and word attributes of
 USX3 exports were not escaped

---
 BibleOrgSys/InputOutput/MLWriter.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/InputOutput/MLWriter.py b/BibleOrgSys/InputOutput/MLWriter.py
index a36aedf..b964b13 100755
--- a/BibleOrgSys/InputOutput/MLWriter.py
+++ b/BibleOrgSys/InputOutput/MLWriter.py
@@ -325,14 +325,7 @@ class MLWriter:
         if not extras: # We can use the simpler function
             return MLWriter.escape_characters( rawTextString, checkFirst ), extras
 
-        # Ok, we've got extras so we need to check more carefully
-        # Precounting might speed things up ??? (not profile tested yet)
-        escape_count = sum([rawTextString.count(c) for c in ESCAPE_MAP])
-        if escape_count == 0:
-            return MLWriter.escape_characters( rawTextString, checkFirst ), extras
-        else: dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"{escape_count=} {[rawTextString.count(c) for c in ESCAPE_MAP]} {rawTextString=}")
-
-        # Ok, we've got chars needing to be escaped and we have extras so need to work through char by char
+        # Ok, we've got extras so we need to work through char by char
         return MLWriter._escape_with_extras( rawTextString, extras, ESCAPE_MAP )
     # end of MLWriter.escape_characters_with_extras static function
 
@@ -340,7 +333,8 @@ class MLWriter:
     def _escape_with_extras( rawTextString:str, extras:InternalBibleExtraList, escapeMap:dict ) -> tuple[str,InternalBibleExtraList]:
         """
         Escapes the characters in the text that are in the map,
-            and returns new extras with their indexes adjusted for that.
+            and returns new extras with their indexes adjusted for that
+            and with the ampersands in their notes escaped.
         """
         char_strings, newIndexes, newIndex = [], [], 0
         for char in rawTextString:
@@ -352,6 +346,10 @@ class MLWriter:
         for extra in extras:
             adjExtra = copy( extra ) # Don't change the one that's in the Bible
             adjExtra.index = newIndexes[extra.index] if extra.index<len(newIndexes) else newIndex
+            # The notes have their own markup, plus the word of a ww field must stay the same as in the text
+            word, pipe, rest = extra.noteText.partition( '|' ) if extra.getType()=='ww' else ('', '', extra.noteText)
+            adjExtra.noteText = ''.join( escapeMap.get( char, char ) for char in word ) + pipe + rest.replace( '&', '&amp;' )
+            adjExtra.cleanNoteText = extra.cleanNoteText.replace( '&', '&amp;' )
             adjExtras.append( adjExtra )
         return ''.join(char_strings), adjExtras
     # end of MLWriter._escape_with_extras static function
@@ -371,10 +369,7 @@ class MLWriter:
         if '&' not in rawTextString and not any( '&' in extra.getText() for extra in extras ):
             return rawTextString, extras
 
-        escapedText, adjExtras = MLWriter._escape_with_extras( rawTextString, extras, {'&':'&amp;'} )
-        for extra in adjExtras:
-            extra.noteText, extra.cleanNoteText = extra.noteText.replace( '&', '&amp;' ), extra.cleanNoteText.replace( '&', '&amp;' )
-        return escapedText, adjExtras
+        return MLWriter._escape_with_extras( rawTextString, extras, {'&':'&amp;'} )
     # end of MLWriter.escape_ampersands_with_extras static function
 
     def start( self, lineEndings:str='l', noAutoXML:bool=False, writeBOM:bool=False ) -> None:
-- 
2.43.0


From 9ce631e9e21e10b529d0d32fda654c5cadb9a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 60/82] fix: text after character markers inside notes was lost
 (USX, USFX exports) or doubled (USFX reader)

---
 BibleOrgSys/BibleWriter.py          | 10 ++++++++++
 BibleOrgSys/Formats/USFXXMLBible.py | 16 +++++++++-------
 BibleOrgSys/Formats/USXXMLBible.py  |  5 +++++
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 2efb9bf..d4d04f0 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -4003,6 +4003,11 @@ class BibleWriter( InternalBible ):
                                 logger.error( "toUSX2XML.processFootnote: Closing problem at {} {}:{} in footnote {!r}".format( BBB, C, V, USXfootnote ) )
                             USXfootnoteXML += f'>{adjToken}</char>'
                             fTextOpen = False
+                        elif fTextOpen and lcToken.lstrip('+').split(' ')[0].split('*')[0] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # character formatting (or its closing) inside the text
+                            nestedMarker = lcToken.lstrip('+').split(' ')[0].split('*')[0]
+                            nestedText = token[lcToken.index(nestedMarker)+len(nestedMarker)+1:] # Get the bit after the space or asterisk
+                            if lcToken.lstrip('+').startswith( f'{nestedMarker}*' ): adjToken += nestedText # The char element was already closed
+                            else: adjToken += f'<char style="{nestedMarker}">{nestedText}</char>'
                         elif lcToken.startswith('z'):
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX processFootnote {j} custom: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
                             ixSpace = lcToken.find( ' ' )
@@ -4552,6 +4557,11 @@ class BibleWriter( InternalBible ):
                                 logger.error( "toUSFXXML.processFootnote: Problem at {} {}:{} in footnote {!r}".format( BBB, C, V, USFXfootnote ) )
                             USFXfootnoteXML += '>' + adjToken + '</char>'
                             fTextOpen = False
+                        elif fTextOpen and lcToken.lstrip('+').split(' ')[0].split('*')[0] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # character formatting (or its closing) inside the text
+                            nestedMarker = lcToken.lstrip('+').split(' ')[0].split('*')[0]
+                            nestedText = token[lcToken.index(nestedMarker)+len(nestedMarker)+1:] # Get the bit after the space or asterisk
+                            if lcToken.lstrip('+').startswith( f'{nestedMarker}*' ): adjToken += nestedText # The char element was already closed
+                            else: adjToken += f'<char style="{nestedMarker}">{nestedText}</char>'
                         else: # Could be character formatting (or closing of character formatting)
                             subTokens = lcToken.split()
                             firstToken = subTokens[0]
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index d30e8af..04d296c 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -886,7 +886,11 @@ class USFXXMLBible( Bible ):
                     self.thisBook.appendToLastLine( ' \\{} {}\\{}*{}'.format( marker, target, marker, fText ) )
                 else: halt
             elif marker=='w':
-                self.loadWordFormatting( subelement, sublocation, BBB, C, V )
+                self.loadWordFormatting( subelement, sublocation, BBB, C, V ) # Adds the tail as well
+                fTail = None
+            elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
+                self.loadCharacterFormatting( subelement, sublocation, BBB, C, V ) # Adds the tail as well
+                fTail = None
             else:
                 BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sublocation, 'dq54' )
                 self.thisBook.appendToLastLine( ' \\{} {}'.format( marker, fText ) )
@@ -912,17 +916,15 @@ class USFXXMLBible( Bible ):
                             else:
                                 if DEBUGGING_THIS_MODULE: halt
                         elif marker2 == 'w':
-                            self.loadWordFormatting( sub2element, sub2location, BBB, C, V )
+                            self.loadWordFormatting( sub2element, sub2location, BBB, C, V ) # Adds the tail as well
+                            fTail2 = None
                         elif marker2 in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
-                            self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V )
+                            self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V ) # Adds the tail as well
+                            fTail2 = None
                         else:
                             vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker2', repr(marker2), BBB, C, V )
                             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
                         if fTail2: self.thisBook.appendToLastLine( fTail2 )
-                elif marker == 'w':
-                    self.loadWordFormatting( subelement, sublocation, BBB, C, V )
-                elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
-                    self.loadCharacterFormatting( subelement, sublocation, BBB, C, V )
                 else:
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'Ignored marker', repr(marker), BBB, C, V )
                     if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index aa9d76b..fd141f3 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -736,6 +736,11 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                         # if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag: assert xtOpen and not xoOpen
                         USXfootnoteXML += f'>{makeRefs( BBB, C,V, self.genericBRL, adjToken )}</char>'
                         xtOpen = False
+                    elif fTextOpen and not xtOpen and lcToken.lstrip('+').split(' ')[0].split('*')[0] in BibleOrgSysGlobals.USFMAllExpandedCharacterMarkers: # character formatting (or its closing) inside the text
+                        nestedMarker = lcToken.lstrip('+').split(' ')[0].split('*')[0]
+                        nestedText = token[lcToken.index(nestedMarker)+len(nestedMarker)+1:] # Get the bit after the space or asterisk
+                        if lcToken.lstrip('+').startswith( f'{nestedMarker}*' ): adjToken += nestedText # The char element was already closed
+                        else: adjToken += f'<char style="{nestedMarker}">{nestedText}</char>'
                     elif lcToken.startswith('z'):
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, f"USX _processFootnote {j} custom: '{token}'  {frOpen} {fTextOpen} {fCharOpen}  '{USXfootnote}'" )
                         ixSpace = lcToken.find( ' ' )
-- 
2.43.0


From cdcb33501809c951fbf9da3c56643e9c3dcd87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 61/82] fix: nested character markers were not handled in OSIS
 exports, nor seg inside q by the OSIS reader

---
 BibleOrgSys/BibleWriter.py          | 1 +
 BibleOrgSys/Formats/OSISXMLBible.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index d4d04f0..8a806b8 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5029,6 +5029,7 @@ class BibleWriter( InternalBible ):
                 if '<<' in adjText or '>>' in adjText:
                     logger.warning( _("toOSIS: Unexpected double angle brackets in {}: {!r} field is {!r}").format( toOSISGlobals['verseRef'], marker, textToCheck ) )
                     adjText = adjText.replace('<<','“' ).replace('>>','”' )
+                adjText = adjText.replace( '\\+', '\\' ) # Nested character markers become nested elements anyway
                 if '\\bk ' in adjText: adjText = checkOSISTextHelper('bk',adjText).replace('\\bk ','<reference type="x-bookName">').replace('\\bk*','</reference>')
                 if '\\ior ' in adjText: adjText = checkOSISTextHelper('ior',adjText).replace('\\ior ','<reference>').replace('\\ior*','</reference>')
                 if '\\add ' in adjText: adjText = checkOSISTextHelper('add',adjText).replace('\\add ','<transChange type="added">').replace('\\add*','</transChange>')
diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 7992c68..e116871 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -1371,6 +1371,8 @@ class OSISXMLBible( Bible ):
                 self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             elif subelement.tag == self.OSISNameSpace+'transChange':
                 self.validateTransChange( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == self.OSISNameSpace+'seg':
+                self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
             else:
                 logging.error( "q7t2 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (q7t2)".format( subelement.tag, subelement.text, location, verseMilestone ) )
-- 
2.43.0


From d988b7e2392c79afd7785a3f5f9ea177e068f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:29 +0000
Subject: [PATCH 62/82] fix: published verse numbers were left as raw markers
 in OSIS/HTML/Markdown exports and made USX3 exports unreadable

---
 BibleOrgSys/BibleWriter.py         |  8 ++++----
 BibleOrgSys/Formats/USXXMLBible.py | 11 ++++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 8a806b8..e15a860 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1611,7 +1611,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = ''
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # It's already been converted to a newline (vp#) field
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
@@ -1995,7 +1995,7 @@ class BibleWriter( InternalBible ):
                 elif extraType == 'sem':
                     extra = ''
                 elif extraType == 'vp':
-                    extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                    extra = '' # It's already been converted to a newline (vp#) field
                 elif extraType == 'ww':
                     extra = '' # temp
                 else:
@@ -5207,7 +5207,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = '' # temp
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # It's already been converted to a newline (vp#) field
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
@@ -6024,7 +6024,7 @@ class BibleWriter( InternalBible ):
                         elif extraType == 'sem':
                             extra = '' # temp
                         elif extraType == 'vp':
-                            extra = f"\\vp {extraText}\\vp*" # Will be handled later
+                            extra = '' # It's already been converted to a newline (vp#) field
                         elif extraType == 'ww':
                             extra = '' # temp
                         else:
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index fd141f3..92c7e08 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -989,14 +989,15 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
                 assert not haveOpenVerse
                 V = adjText
                 haveOpenVerse = True
-                if gotVP: # this is the verse number to be published
-                    adjText = gotVP
-                    gotVP = None
                 if not paraJustOpened:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                 if adjText:
-                    xw.writeLineOpenSelfclose( 'verse', [('number',adjText.replace('<','').replace('>','').replace('"','')),
-                                                            ('style','v'),('sid',f'{USXAbbrev} {C}:{V}')] )
+                    verseAttributes = [('number',adjText.replace('<','').replace('>','').replace('"','')), ('style','v')]
+                    if gotVP: # this is the verse number to be published
+                        verseAttributes.append( ('pubnumber',gotVP.replace('<','').replace('>','').replace('"','')) )
+                        gotVP = None
+                    verseAttributes.append( ('sid',f'{USXAbbrev} {C}:{V}') )
+                    xw.writeLineOpenSelfclose( 'verse', verseAttributes )
                 if not paraJustOpened:
                     xw.removeFinalNewline( suppressFollowingIndent=True )
                 paraJustOpened = False
-- 
2.43.0


From 3ad3a9c3876ff2f83a5d2e7743b812d3b20d6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 63/82] fix: Markdown exports showed internal chapter and verse
 entries as text (Chapter 11 for chapter 1)

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index e15a860..24ae541 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1681,6 +1681,8 @@ class BibleWriter( InternalBible ):
                 gotVP = None
                 for entry in internalBibleBookData:
                     marker, adjText, extras = entry.getMarker(), entry.getAdjustedText(), entry.getExtras()
+                    if marker.startswith('¬') or marker in ('c#','v='):
+                        continue # silent ignore some of our added markers
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-- 
2.43.0


From 84c9dfa69e880b6fb569de18a85eb61a38e33f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:41 +0000
Subject: [PATCH 64/82] fix: quoted text and nested markers were shown as raw
 markers in HTML and Markdown exports

---
 BibleOrgSys/BibleWriter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 24ae541..622e7bc 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1629,6 +1629,7 @@ class BibleWriter( InternalBible ):
             # __formatMarkdownVerseText main code
             text = handleExtras( givenText, extras )
 
+            text = text.replace( '\\+', '\\' ) # Nested character markers are formatted just like the others
             # Semantic stuff
             text = text.replace( '\\ior ', '[' ).replace( '\\ior*', ']' )
             text = text.replace( '\\bk ', '_' ).replace( '\\bk*', '_' )
@@ -1638,6 +1639,7 @@ class BibleWriter( InternalBible ):
             text = text.replace( '\\nd ', '' ).replace( '\\nd*', '' )
             text = text.replace( '\\+nd ', '' ).replace( '\\+nd*', '' )
             text = text.replace( '\\wj ', '' ).replace( '\\wj*', '' )
+            text = text.replace( '\\qt ', '' ).replace( '\\qt*', '' )
             text = text.replace( '\\sig ', '' ).replace( '\\sig*', '' )
             if BBB in ('GLS',): # it's a glossary keyword entry
                 text = text.replace( '\\k ', '' ).replace( '\\k*', '' )
@@ -2025,6 +2027,8 @@ class BibleWriter( InternalBible ):
         text = text.replace( '\\nd ', '<span class="divineName">' ).replace( '\\nd*', '</span>' )
         text = text.replace( '\\+nd ', '<span class="divineName">' ).replace( '\\+nd*', '</span>' )
         text = text.replace( '\\wj ', '<span class="wordsOfJesus">' ).replace( '\\wj*', '</span>' )
+        text = text.replace( '\\qt ', '<span class="quotedText">' ).replace( '\\qt*', '</span>' )
+        text = text.replace( '\\+qt ', '<span class="quotedText">' ).replace( '\\+qt*', '</span>' )
         text = text.replace( '\\sig ', '<span class="signature">' ).replace( '\\sig*', '</span>' )
         text = text.replace( '\\+sig ', '<span class="signature">' ).replace( '\\+sig*', '</span>' )
         if BBB in ('GLS',): # it's a glossary keyword entry
-- 
2.43.0


From 50431cab1d2c05034a61ad349fbdc6a6be5f959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:30 +0000
Subject: [PATCH 65/82] fix: a remark or an end title after a verse bridge or
 segment stopped nearly every export

---
 BibleOrgSys/BibleWriter.py              | 37 +++++++++++++------------
 BibleOrgSys/Formats/OpenSongXMLBible.py |  2 +-
 BibleOrgSys/Formats/USXXMLBible.py      |  2 +-
 3 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 622e7bc..9296d14 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -586,7 +586,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
                     if marker == 'c': C, V = adjText, '0'
                     elif marker == 'v': V = adjText
 
@@ -1688,7 +1688,7 @@ class BibleWriter( InternalBible ):
                     if marker in USFM_PRECHAPTER_MARKERS:
                         if self.doExtraChecking:
                             assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                        V = str( int(V) + 1 )
+                        if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                     if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                         ignoredMarkers.add( marker )
@@ -2333,7 +2333,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
@@ -2698,7 +2698,7 @@ class BibleWriter( InternalBible ):
                 or C == 'I': # This second part also copes with misuse of
                     if self.doExtraChecking:
                         assert C=='I' or pseudoMarker=='rem' or pseudoMarker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='I': V = str( int(V) + 1 ) # only the introduction is counted by lines
                     lastV = V
                 if pseudoMarker in ('id','ide','h','toc1','toc2','toc3','rem','ie'): continue # don't need these
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorText processing {!r} {!r} {}".format( self.abbreviation, pseudoMarker, fullText[:60]+('…' if len(fullText)>60 else '') ) )
@@ -2824,8 +2824,9 @@ class BibleWriter( InternalBible ):
             for startC,startV,endC,endV,fileOffset,length in bookIndexList: # Convert strings to integers for the JSON index
                 if startC=='I': startC = -1
                 if endC=='I': endC = -1
-                intStartC, intStartV = int( startC ), int( startV )
-                intEndC, intEndV = int( endC ), int( endV )
+                # Verse bridges and segments (like '3-4' and '1a') are indexed by their first verse number
+                intStartC, intStartV = int( startC ), int( re.match( r'-?\d+', startV ).group() )
+                intEndC, intEndV = int( endC ), int( re.match( r'-?\d+', endV ).group() )
                 if intEndC==intStartC: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV) )
                 else: newBookIndexList.append( (intStartC,intStartV, fileOffset,length, intEndV,intEndC) )
             if C != 'I': # Check the index list
@@ -3304,7 +3305,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 # Markers usually only found in the introduction
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie','v='): # Just ignore these lines
@@ -4175,7 +4176,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -4688,7 +4689,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
                 getMarkerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, C, V, marker, getMarkerContentType, haveOpenPara, paraJustOpened )
 
@@ -5376,7 +5377,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "BibleWriter.toOSIS: {} {}:{} {}={}{}".format( BBB, C, V, marker, repr(text), " + extras" if extras else "" ) )
 
                 if haveOpenList and marker not in ('li1','li2','li3','li4', 'ili1','ili2','ili3','ili4',):
@@ -6058,7 +6059,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6259,7 +6260,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -6856,7 +6857,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, marker, text )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, " ", haveOpenIntro, haveOpenOutline, haveOpenMajorSection, haveOpenSection, haveOpenSubsection, needChapterEID, haveOpenParagraph, haveOpenVsID, haveOpenLG, haveOpenL )
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, toSwordGlobals['idStack'] )
@@ -7310,7 +7311,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -7484,7 +7485,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -8017,7 +8018,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9238,7 +9239,7 @@ class BibleWriter( InternalBible ):
                 if marker in USFM_PRECHAPTER_MARKERS:
                     if self.doExtraChecking:
                         assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                    V = str( int(V) + 1 )
+                    if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                 if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                     ignoredMarkers.add( marker )
@@ -9680,7 +9681,7 @@ class BibleWriter( InternalBible ):
                         if marker in USFM_PRECHAPTER_MARKERS:
                             if self.doExtraChecking:
                                 assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                            V = str( int(V) + 1 )
+                            if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
                         if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                             ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 5c14172..5dbacc5 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -257,7 +257,7 @@ def createOpenSongXML( BibleObject, outputFolder=None, controlDict=None, validat
             if marker in USFM_PRECHAPTER_MARKERS:
                 if DEBUGGING_THIS_MODULE or BibleOrgSysGlobals.debugFlag or BibleOrgSysGlobals.strictCheckingFlag:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
 
             if marker in OFTEN_IGNORED_USFM_HEADER_MARKERS or marker in ('ie',): # Just ignore these lines
                 ignoredMarkers.add( marker )
diff --git a/BibleOrgSys/Formats/USXXMLBible.py b/BibleOrgSys/Formats/USXXMLBible.py
index 92c7e08..c774b03 100755
--- a/BibleOrgSys/Formats/USXXMLBible.py
+++ b/BibleOrgSys/Formats/USXXMLBible.py
@@ -935,7 +935,7 @@ def createUSXXMLBible( self, outputFolderpath:Path|str, controlDict, validationS
             if marker in USFM_PRECHAPTER_MARKERS:
                 if self.doExtraChecking:
                     assert C=='-1' or marker=='rem' or marker.startswith('mte')
-                V = str( int(V) + 1 )
+                if C=='-1': V = str( int(V) + 1 ) # only the introduction is counted by lines
             markerContentType = BibleOrgSysGlobals.loadedUSFMMarkers.getMarkerContentType( marker )
             # if BBB=='RUT': vPrint( 'Quiet', DEBUGGING_THIS_MODULE,
             #     f"{BBB} {C}:{V} {marker}({originalMarker})='{text}'{'+extras' if extras else ''} mCT={getMarkerContentType} hOP={haveOpenPara} pJO={paraJustOpened} hOV={haveOpenVerse} nCV={needToCloseVerse}" )
-- 
2.43.0


From e86c101303aaa088cac9f8f544bec5699bc36bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:42 +0000
Subject: [PATCH 66/82] fix: emphasized text was shown as raw markers in HTML
 exports

---
 BibleOrgSys/BibleWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 9296d14..84ff053 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -2048,6 +2048,8 @@ class BibleWriter( InternalBible ):
         text = text.replace( '\\+bdit ', '<span class="boldItalic">' ).replace( '\\+bdit*', '</span>' )
         text = text.replace( '\\it ', '<span class="italic">' ).replace( '\\it*', '</span>' )
         text = text.replace( '\\+it ', '<span class="italic">' ).replace( '\\+it*', '</span>' )
+        text = text.replace( '\\em ', '<em>' ).replace( '\\em*', '</em>' )
+        text = text.replace( '\\+em ', '<em>' ).replace( '\\+em*', '</em>' )
         text = text.replace( '\\bd ', '<span class="bold">' ).replace( '\\bd*', '</span>' )
         text = text.replace( '\\+bd ', '<span class="bold">' ).replace( '\\+bd*', '</span>' )
         text = text.replace( '\\sc ', '<span class="smallCaps">' ).replace( '\\sc*', '</span>' )
-- 
2.43.0


From 166481074c4a8c12b122aa4c511c8e4cd8a55a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 67/82] fix: signatures and rarer character styles lost text or
 were left as raw markers in OSIS and USFX

---
 BibleOrgSys/BibleWriter.py          |  8 ++++++--
 BibleOrgSys/Formats/OSISXMLBible.py | 15 ++++++++-------
 BibleOrgSys/Formats/USFXXMLBible.py |  6 +++---
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 84ff053..eb8665f 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -5049,8 +5049,12 @@ class BibleWriter( InternalBible ):
                 if '\\bd ' in adjText: adjText = checkOSISTextHelper('bd',adjText).replace('\\bd ','<hi type="bold">').replace('\\bd*','</hi>')
                 if '\\qt ' in adjText: adjText = checkOSISTextHelper('qt',adjText).replace('\\qt ','<seg type="otPassage">').replace('\\qt*','</seg>')
                 if '\\em ' in adjText: adjText = checkOSISTextHelper('em',adjText).replace('\\em ','<hi type="bold">').replace('\\em*','</hi>')
-                if '\\sc ' in adjText: adjText = checkOSISTextHelper('sc',adjText).replace('\\sc ','<hi type="SMALLCAPS">').replace('\\sc*','</hi>') # XXXXXX temp …
-                adjText = adjText.replace('\\w ','').replace('\\w*','') # A wordlist entry is just part of the text
+                if '\\sc ' in adjText: adjText = checkOSISTextHelper('sc',adjText).replace('\\sc ','<hi type="small-caps">').replace('\\sc*','</hi>')
+                for charMarker,highlightType in (('bdit','bold'),('k','bold'),('tl','italic'),('sls','italic'),('dc','italic'),('ord','super'),('sup','super'),('no','normal')):
+                    if '\\'+charMarker+' ' in adjText:
+                        adjText = checkOSISTextHelper(charMarker,adjText).replace('\\'+charMarker+' ',f'<hi type="{highlightType}">').replace('\\'+charMarker+'*','</hi>')
+                for charMarker in ('w','pn','png'): # Wordlist entries and proper names are just part of the text
+                    adjText = adjText.replace('\\'+charMarker+' ','').replace('\\'+charMarker+'*','')
                 if '\\fig ' in adjText: # Figure is not used in Sword modules so we'll remove it from the OSIS (for now at least)
                     ix1 = adjText.find( '\\fig ' )
                     ix2 = adjText.find( '\\fig*' )
diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index e116871..fd56ebf 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -821,9 +821,11 @@ class OSISXMLBible( Bible ):
         elif highlightType == 'small-caps': marker = 'sc'
         elif highlightType == 'super': marker = 'ord'
         elif highlightType == 'normal': marker = 'no'
-        elif BibleOrgSysGlobals.debugFlag:
-            vPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'validateHighlight: highlightX', highlightType, locationDescription, verseMilestone )
-            if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag or DEBUGGING_THIS_MODULE: halt
+        else: # Don't lose the text
+            logging.warning( "Unknown {!r} highlight type in {} at {}".format( highlightType, location, verseMilestone ) )
+            loadErrors.append( "Unknown {!r} highlight type in {} at {}".format( highlightType, location, verseMilestone ) )
+            if BibleOrgSysGlobals.debugFlag and (BibleOrgSysGlobals.strictCheckingFlag or DEBUGGING_THIS_MODULE): halt
+            marker = 'em'
         thisBook.appendToLastLine( '\\{} {}\\{}*'.format( marker, clean(highlightedText), marker ) )
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'hi':
@@ -2477,10 +2479,9 @@ class OSISXMLBible( Bible ):
             location = "validateSigned: " + locationDescription
             BibleOrgSysGlobals.checkXMLNoAttributes( element, location+" at "+verseMilestone, '9i6h', loadErrors )
             BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'vd62', loadErrors )
-            BibleOrgSysGlobals.checkXMLNoTail( element, location+" at "+verseMilestone, 'fc3v3', loadErrors )
-            signedName = subelement.text
-            if BibleOrgSysGlobals.debugFlag and subelement.tail: halt
-            thisBook.appendToLastLine( '\\sg {}\\sg*'.format( clean(signedName) ) )
+            signedName, signedTail = element.text, element.tail
+            thisBook.appendToLastLine( '\\sig {}\\sig*'.format( clean(signedName) ) )
+            if signedTail and signedTail.strip(): thisBook.appendToLastLine( clean(signedTail) )
         # end of validateSigned
 
 
diff --git a/BibleOrgSys/Formats/USFXXMLBible.py b/BibleOrgSys/Formats/USFXXMLBible.py
index 04d296c..7caa616 100755
--- a/BibleOrgSys/Formats/USFXXMLBible.py
+++ b/BibleOrgSys/Formats/USFXXMLBible.py
@@ -650,7 +650,7 @@ class USFXXMLBible( Bible ):
                 self.loadCrossreference( element, location )
             elif element.tag == 'w':
                 self.loadWordFormatting( element, location, BBB, C, V )
-            elif element.tag in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
+            elif element.tag in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no','ord','sup','dc','png','pro',): # character formatting
                 self.loadCharacterFormatting( element, location, BBB, C, V )
             elif element.tag == 'cs': # character style -- seems like a USFX hack
                 text, tail = clean(element.text), clean(element.tail)
@@ -888,7 +888,7 @@ class USFXXMLBible( Bible ):
             elif marker=='w':
                 self.loadWordFormatting( subelement, sublocation, BBB, C, V ) # Adds the tail as well
                 fTail = None
-            elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
+            elif marker in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no','ord','sup','dc','png','pro',): # character formatting
                 self.loadCharacterFormatting( subelement, sublocation, BBB, C, V ) # Adds the tail as well
                 fTail = None
             else:
@@ -918,7 +918,7 @@ class USFXXMLBible( Bible ):
                         elif marker2 == 'w':
                             self.loadWordFormatting( sub2element, sub2location, BBB, C, V ) # Adds the tail as well
                             fTail2 = None
-                        elif marker2 in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no',): # character formatting
+                        elif marker2 in ('add','nd','wj','rq','sig','sls','bk','k','tl','vp','pn','qs','qt','em','it','bd','bdit','sc','no','ord','sup','dc','png','pro',): # character formatting
                             self.loadCharacterFormatting( sub2element, sub2location, BBB, C, V ) # Adds the tail as well
                             fTail2 = None
                         else:
-- 
2.43.0


From 742623f43a000a8b2edfceee8ad005d901699040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:45 +0000
Subject: [PATCH 68/82] fix: rarer character styles were shown as raw markers
 in HTML and Markdown exports

---
 BibleOrgSys/BibleWriter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index eb8665f..f114aa2 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1654,7 +1654,9 @@ class BibleWriter( InternalBible ):
             text = text.replace( '\\bdit ', '*_' ).replace( '\\bdit*', '_*' )
             text = text.replace( '\\it ', '_' ).replace( '\\it*', '_' )
             text = text.replace( '\\bd ', '*' ).replace( '\\bd*', '*' )
-            text = text.replace( '\\sc ', '' ).replace( '\\sc*', '' )
+            text = text.replace( '\\em ', '_' ).replace( '\\em*', '_' )
+            for charMarker in ('sc','tl','pn','png','ord','sup','sls','no','dc'):
+                text = text.replace( '\\'+charMarker+' ', '' ).replace( '\\'+charMarker+'*', '' )
 
             if '\\' in text or '<' in text or '>' in text:
                 logger.error( "formatMarkdownVerseText programming error: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
@@ -2054,6 +2056,9 @@ class BibleWriter( InternalBible ):
         text = text.replace( '\\+bd ', '<span class="bold">' ).replace( '\\+bd*', '</span>' )
         text = text.replace( '\\sc ', '<span class="smallCaps">' ).replace( '\\sc*', '</span>' )
         text = text.replace( '\\+sc ', '<span class="smallCaps">' ).replace( '\\+sc*', '</span>' )
+        for charMarker, spanClass in (('tl','transliterated'),('pn','properName'),('png','properName'),('ord','ordinal'),('sup','superscript'),('sls','secondaryLanguage'),('no','normal'),('dc','deuterocanonical')):
+            text = text.replace( '\\'+charMarker+' ', f'<span class="{spanClass}">' ).replace( '\\'+charMarker+'*', '</span>' )
+            text = text.replace( '\\+'+charMarker+' ', f'<span class="{spanClass}">' ).replace( '\\+'+charMarker+'*', '</span>' )
 
         if '\\' in text:
             logger.error( "formatHTMLVerseText programming error: unprocessed code in {!r} from {!r} at {} {}:{}".format( text, givenText, BBB, C, V ) )
-- 
2.43.0


From 3a0ba57c8f9842ab0c34e9bbcfaa3187380b3063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:11 +0000
Subject: [PATCH 69/82] fix: psalm titles ran on behind the chapter number in
 Markdown exports

---
 BibleOrgSys/BibleWriter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index f114aa2..17ada6b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1721,6 +1721,9 @@ class BibleWriter( InternalBible ):
                         myFile.write( "\n{} ".format( adjText ) )
                     elif marker in ('p',): # Drop out these fields
                         ignoredMarkers.add( marker )
+                    elif marker in ('d','sp','r','sr','mr','cd','qa'): # These have a line of their own
+                        if textBuffer: myFile.write( "{}".format( textBuffer ) ); textBuffer = ''
+                        if adjText: myFile.write( "\n{}".format( __formatMarkdownVerseText( BBB, C, V, adjText, extras ) ) )
                     elif adjText:
                         textBuffer += (' ' if textBuffer else '') + __formatMarkdownVerseText( BBB, C, V, adjText, extras )
                 if textBuffer: myFile.write( "{}\n".format( textBuffer ) ) # Write the last bit
-- 
2.43.0


From df31b0b3bf8b8a13516dc01d653a1b3a6cd6c5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 70/82] fix: signatures in poetry were lost by the OSIS reader

---
 BibleOrgSys/Formats/OSISXMLBible.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index fd56ebf..4d4c896 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -2557,6 +2557,9 @@ class OSISXMLBible( Bible ):
                         elif sub2element.tag == OSISXMLBible.OSISNameSpace+'transChange':
                             sub2location = "validateLG: transChange of l of " + locationDescription
                             self.validateTransChange( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
+                        elif sub2element.tag == OSISXMLBible.OSISNameSpace+'signed':
+                            sub2location = "validateLG: signed of l of " + locationDescription
+                            validateSigned( thisBook, sub2element, sub2location, verseMilestone )
                         elif sub2element.tag == OSISXMLBible.OSISNameSpace+'seg':
                             sub2location = "validateLG: seg of l of " + locationDescription
                             self.validateAndLoadSEG( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
-- 
2.43.0


From ab4873cc22e18aad1d0af264f560df9a029458d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:55 +0000
Subject: [PATCH 71/82] fix: zipped SwordSearcher and Drupal exports held the
 whole path of the export folder

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index 17ada6b..ba5c375 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -7395,7 +7395,7 @@ class BibleWriter( InternalBible ):
         # Now create a zipped version
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping {} SwordSearcher file…".format( filename ) )
         zf = zipfile.ZipFile( filepath+'.zip', 'w', compression=zipfile.ZIP_DEFLATED )
-        zf.write( filepath )
+        zf.write( filepath, os.path.basename(filepath) ) # Save in the archive without the path
         zf.close()
 
         if haveWriteErrors: return False # The file is not complete
@@ -7577,7 +7577,7 @@ class BibleWriter( InternalBible ):
         # Now create a zipped version
         vPrint( 'Info', DEBUGGING_THIS_MODULE, "  Zipping {} DrupalBible file…".format( filename ) )
         zf = zipfile.ZipFile( filepath+'.zip', 'w', compression=zipfile.ZIP_DEFLATED )
-        zf.write( filepath )
+        zf.write( filepath, os.path.basename(filepath) ) # Save in the archive without the path
         zf.close()
 
         if BibleOrgSysGlobals.maxProcesses > 1:
-- 
2.43.0


From 0e2c4a9fe4e89099f42b74780b7ac11ee865402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:08 +0000
Subject: [PATCH 72/82] fix: quotation marks in notes broke the note links of
 HTML exports

---
 BibleOrgSys/BibleWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index ba5c375..c87a87b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1862,7 +1862,7 @@ class BibleWriter( InternalBible ):
 
                 idName = "{}{}".format( 'FNote' if noteType=='footnote' else 'ENote', fnIndex )
                 noteHTML5 = '<a class="{}LinkSymbol" title="{}" href="#{}">[fn]</a>' \
-                                .format( noteType, fnTitle, idName )
+                                .format( noteType, fnTitle.replace('"','&quot;'), idName )
 
                 endHTML5 = '<p id="{}" class="{}">'.format( idName, noteType )
                 if originCV:
@@ -1923,7 +1923,7 @@ class BibleWriter( InternalBible ):
                         xrefText = HTML5xref.strip()
 
                 xrefHTML5 = '<a class="xrefLinkSymbol" title="{}" href="#XRef{}">[xr]</a>' \
-                                .format( xrefText, xrefIndex )
+                                .format( xrefText.replace('"','&quot;'), xrefIndex )
 
                 endHTML5 = '<p id="XRef{}" class="xref">'.format( xrefIndex )
                 if not origin: # we'll try to make one
-- 
2.43.0


From 3235f964dde8d5fb2db86cb1cde59e66a9a2db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 73/82] fix: OpenSong verses that end with italic text got the
 word None

---
 BibleOrgSys/Formats/OpenSongXMLBible.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/Formats/OpenSongXMLBible.py b/BibleOrgSys/Formats/OpenSongXMLBible.py
index 5dbacc5..b251be0 100755
--- a/BibleOrgSys/Formats/OpenSongXMLBible.py
+++ b/BibleOrgSys/Formats/OpenSongXMLBible.py
@@ -536,7 +536,7 @@ class OpenSongXMLBible( Bible ):
                     BibleOrgSysGlobals.checkXMLNoAttributes( subelement, sub2location, 'ks03' )
                     BibleOrgSysGlobals.checkXMLNoSubelements( subelement, sub2location, 'ks05' )
                     if subelement.tag == 'i':
-                        vText += '\\it {}\\it*{}'.format( subelement.text, subelement.tail )
+                        vText += '\\it {}\\it*{}'.format( subelement.text or '', subelement.tail or '' )
                     else: logging.error( "Expected to find 'i' but got {!r}".format( subelement.tag ) )
                 vText += element.tail if element.tail else ''
                 if not vText:
-- 
2.43.0


From cddd8365769519eca42a657fe77f4d221923ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 74/82] fix: Haggai: spaces around styled words were lost,
 styled text in notes went into the verse, and text after a second line break
 stopped the load

---
 BibleOrgSys/Formats/HaggaiXMLBible.py | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/BibleOrgSys/Formats/HaggaiXMLBible.py b/BibleOrgSys/Formats/HaggaiXMLBible.py
index 070058c..ce05c3f 100755
--- a/BibleOrgSys/Formats/HaggaiXMLBible.py
+++ b/BibleOrgSys/Formats/HaggaiXMLBible.py
@@ -609,7 +609,7 @@ class HaggaiXMLBible( Bible ):
         location = "{}:{}".format( location, verseNumber ) # Get a better location description
         #thisBook.addLine( 'v', verseNumber )
         vText = '' if verse.text is None else verse.text
-        if vText: vText = vText.strip()
+        if vText: vText = vText.lstrip() # but keep the space before a style or note
         #if not vText: # This happens if a verse starts immediately with a style or note
             #logging.warning( "{} {}:{} has no text".format( BBB, chapterNumber, verseNumber ) )
 
@@ -623,14 +623,8 @@ class HaggaiXMLBible( Bible ):
                     else: logging.warning( "Unprocessed {!r} attribute ({}) in style subelement".format( attrib, value ) )
                 if noteType and noteType not in ('variant',):
                     logging.warning( "Unexpected {} note type in {}".format( noteType, BBB ) )
-                nText, nTail = subelement.text, subelement.tail
+                nText, nTail = subelement.text if subelement.text else '', subelement.tail
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "note", BBB, chapterNumber, verseNumber, noteType, repr(nText), repr(nTail) )
-                vText += "\\f + \\fk {} \\ft {}\\f*".format( noteType, nText ) if noteType else "\\f + \\ft {}\\f*".format( nText )
-                if nTail:
-                    if '\n' in nTail:
-                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
-                        nTail = nTail.replace( '\n', ' ' )
-                    vText += nTail
                 for sub2element in subelement:
                     if sub2element.tag == HaggaiXMLBible.styleTag:
                         sub2location = "style in " + sublocation
@@ -655,10 +649,16 @@ class HaggaiXMLBible( Bible ):
                         #else: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "css is", css, "idStyle is", idStyle ); halt
                         sText, sTail = sub2element.text.strip(), sub2element.tail
                         if BibleOrgSysGlobals.debugFlag: assert sText
-                        if SFM: vText += SFM+' ' + sText + SFM+'*'
-                        else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                        if sTail: vText += sTail.strip()
+                        if SFM: nText += SFM+' ' + sText + SFM+'*'
+                        else: nText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
+                        if sTail: nText += sTail
                     else: logging.error( "Expected to find {} but got {!r} in {}".format( HaggaiXMLBible.styleTag, sub2element.tag, sublocation ) )
+                vText += "\\f + \\fk {} \\ft {}\\f*".format( noteType, nText ) if noteType else "\\f + \\ft {}\\f*".format( nText )
+                if nTail:
+                    if '\n' in nTail:
+                        vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: nTail {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, nTail ) )
+                        nTail = nTail.replace( '\n', ' ' )
+                    vText += nTail
 
             elif subelement.tag == HaggaiXMLBible.styleTag:
                 sublocation = "style in " + location
@@ -685,7 +685,7 @@ class HaggaiXMLBible( Bible ):
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, sublocation )
                 if SFM: vText += SFM+' ' + sText + SFM+'*'
                 else: vText += '\\sc ' + '['+css+']' + sText + '\\sc* ' # Use sc for unknown styles
-                if sTail: vText += sTail.strip()
+                if sTail: vText += sTail # with the space before the next word
 
             elif subelement.tag == HaggaiXMLBible.breakTag:
                 sublocation = "line break in " + location
@@ -699,14 +699,17 @@ class HaggaiXMLBible( Bible ):
                 if BibleOrgSysGlobals.debugFlag: assert art == 'x-nl'
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, BBB, chapterNumber, verseNumber )
                 #assert vText
+                vText = vText.rstrip()
                 if vText:
-                    thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+                    if verseNumber: thisBook.addLine( 'v', verseNumber + ' ' + vText ); verseNumber = None
+                    else: thisBook.addLine( 'm', vText )
                     vText = ''
                 thisBook.addLine( 'm', subelement.tail.strip() if subelement.tail else '' )
                 #bTail = subelement.tail
                 #if bTail: vText = bTail.strip()
             else: logging.error( "Expected to find NOTE or STYLE but got {!r} in {}".format( subelement.tag, location ) )
 
+        vText = vText.rstrip()
         if vText: # This is the main text of the verse (follows the verse milestone)
             if '\n' in vText:
                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "HaggaiXMLBible.__validateAndExtractVerse: vText {} {}:{} {!r}".format( BBB, chapterNumber, verseNumber, vText ) )
-- 
2.43.0


From c99b20267feef94661dc3a89990c157ddfd37e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:10 +0000
Subject: [PATCH 75/82] fix: OSIS: styles and notes in verse containers, verse
 containers in paragraphs, blanks between styled words and the text of other
 kinds of notes were lost

---
 BibleOrgSys/Formats/OSISXMLBible.py | 191 ++++++++--------------------
 1 file changed, 52 insertions(+), 139 deletions(-)

diff --git a/BibleOrgSys/Formats/OSISXMLBible.py b/BibleOrgSys/Formats/OSISXMLBible.py
index 4d4c896..494b7e5 100755
--- a/BibleOrgSys/Formats/OSISXMLBible.py
+++ b/BibleOrgSys/Formats/OSISXMLBible.py
@@ -637,7 +637,7 @@ class OSISXMLBible( Bible ):
                 loadErrors.append( "Unprocessed {!r} subelement ({}) in {} at {} (v4g7)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
         thisBook.appendToLastLine( '\\nd*' )
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        if element.tail and (element.tail.strip() or '\n' not in element.tail): thisBook.appendToLastLine( clean(element.tail) )
     # end of validateDivineName
 
 
@@ -838,7 +838,7 @@ class OSISXMLBible( Bible ):
                 logging.error( "bdhj Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (bdhj)".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-        if highlightedTail and highlightedTail.strip(): thisBook.appendToLastLine( clean(highlightedTail) )
+        if highlightedTail and (highlightedTail.strip() or '\n' not in highlightedTail): thisBook.appendToLastLine( clean(highlightedTail) )
     # end of validateHighlight
 
 
@@ -912,7 +912,7 @@ class OSISXMLBible( Bible ):
         BibleOrgSysGlobals.checkXMLNoSubelements( element, location+" at "+verseMilestone, 'ks91', loadErrors )
         divineName = element.text
         thisBook.appendToLastLine( '\\pn {}\\pn*'.format( clean(divineName) ) )
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) )
+        if element.tail and (element.tail.strip() or '\n' not in element.tail): thisBook.appendToLastLine( clean(element.tail) )
     # end of validateProperName
 
 
@@ -1014,6 +1014,9 @@ class OSISXMLBible( Bible ):
         else:
             vPrint( 'Never', DEBUGGING_THIS_MODULE, "validateCrossReferenceOrFootnote note1", repr(noteType) )
             if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
+            if not noteN: noteN = '+' # Other kinds of notes (e.g., explanation) become footnotes
+            thisBook.appendToLastLine( '\\f {} '.format( noteN ) )
+            openFieldname = 'f'
         noteText = clean( element.text, loadErrors, location, verseMilestone )
         #if not noteText or noteText.isspace(): # Maybe we can infer the anchor reference
         #    if verseMilestone and verseMilestone.count('.')==2: # Something like Gen.1.3
@@ -1059,8 +1062,7 @@ class OSISXMLBible( Bible ):
             elif noteType == 'x-strongsMarkup':
                 thisBook.appendToLastLine( '\\ft {}'.format( noteText ) )
             else:
-                vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "note2", noteType )
-                if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
+                thisBook.appendToLastLine( '\\ft {}'.format( noteText ) )
         for subelement in element:
             if subelement.tag == OSISXMLBible.OSISNameSpace+'reference': # cross-references
                 sublocation = "validateCrossReferenceOrFootnote: reference of " + locationDescription
@@ -1379,7 +1381,7 @@ class OSISXMLBible( Bible ):
                 logging.error( "q7t2 Unprocessed {!r} sub-element ({}) in {} at {}".format( subelement.tag, subelement.text, location, verseMilestone ) )
                 loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (q7t2)".format( subelement.tag, subelement.text, location, verseMilestone ) )
         if isJesus: thisBook.appendToLastLine( '\\wj*' )
-        if element.tail and element.tail.strip(): thisBook.appendToLastLine( clean(element.tail) ) # Just ignore XML spacing characters
+        if element.tail and (element.tail.strip() or '\n' not in element.tail): thisBook.appendToLastLine( clean(element.tail) ) # Just ignore XML spacing characters
     # end of OSISXMLBible.validateQuotedText
 
 
@@ -1521,6 +1523,46 @@ class OSISXMLBible( Bible ):
     # end of OSISXMLBible.validateVerseElement
 
 
+    def loadVerseContainer( self, thisBook, element, verseMilestone, location, loadErrors ):
+        """
+        Load the contents (both text and sub-elements) of a <verse>…</verse> container,
+            given the result of validateVerseElement() for it.
+        """
+        assert isinstance( thisBook, BibleBook )
+        if verseMilestone.startswith( 'verseContents#' ): # it starts with text
+            bits = verseMilestone.split( '#', 2 )
+            if BibleOrgSysGlobals.debugFlag:
+                assert len(bits) == 3
+                assert bits[1].isdigit()
+                assert bits[2]
+            thisBook.addLine( 'v', bits[1] + ' ' + bits[2].lstrip().replace( '\n', ' ' ) )
+        else: thisBook.addLine( 'v', verseMilestone[15:]+' ' ) # Remove the 'verseContainer.' prefix
+        for subelement in element:
+            if subelement.tag == OSISXMLBible.OSISNameSpace+'w':
+                sublocation = "w of " + location
+                self.validateAndLoadWord( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'seg':
+                sublocation = "seg of " + location
+                self.validateAndLoadSEG( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
+                sublocation = "note of " + location
+                self.validateCrossReferenceOrFootnote( thisBook, subelement, sublocation, verseMilestone, loadErrors )
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'hi':
+                sublocation = "hi of " + location
+                self.validateHighlight( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'transChange':
+                sublocation = "transChange of " + location
+                self.validateTransChange( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
+            elif subelement.tag == OSISXMLBible.OSISNameSpace+'divineName':
+                sublocation = "divineName of " + location
+                self.validateDivineName( thisBook, subelement, sublocation, verseMilestone, loadErrors ) # Also handles the tail
+            else:
+                logging.error( "05kq Unprocessed {!r} sub-element {} in {} at {}".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
+                loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (05kq)".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
+                if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
+    # end of loadVerseContainer
+
+
     def validateTitle( self, thisBook, element, locationDescription, chapterMilestone, verseMilestone, loadErrors ):
         """
         Check/validate and process a OSIS Bible paragraph, including all subfields.
@@ -2779,6 +2821,8 @@ class OSISXMLBible( Bible ):
                         thisBook.addLine( 'm', '' )
                         #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Added m" )
                     verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
+                    if verseMilestone and verseMilestone.startswith( ('verseContainer.','verseContents#') ): # it must have been a container
+                        self.loadVerseContainer( thisBook, subelement, verseMilestone, sublocation, loadErrors )
                     justFinishedLG = False
                 elif subelement.tag == OSISXMLBible.OSISNameSpace+'note':
                     sublocation = "validateParagraph: note of " + locationDescription
@@ -3437,139 +3481,8 @@ class OSISXMLBible( Bible ):
                             sublocation = "verse of " + location
                             verseMilestone = self.validateVerseElement( thisBook, subelement, verseMilestone, chapterMilestone, sublocation, loadErrors )
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'vM', verseMilestone ); halt
-                            if verseMilestone and verseMilestone.startswith('verseContainer.'): # it must have been a container -- process the subelements
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Yikes!" ) # Why??????????????
-                                thisBook.addLine( 'v', verseMilestone[15:]+' ' ) # Remove the 'verseContainer.' prefix
-                                for sub2element in subelement:
-                                    if sub2element.tag == OSISXMLBible.OSISNameSpace+'w':
-                                        sub2location = "w of " + sublocation
-                                        self.validateAndLoadWord( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
-                                        #BibleOrgSysGlobals.checkXMLNoTail( sub2element, sub2location+" at "+verseMilestone, '2k3c', loadErrors )
-                                        #word = sub2element.text
-                                        #if BibleOrgSysGlobals.debugFlag: assert word # That should be the actual word
-                                        ## Process the attributes
-                                        #lemma = morph = n = None
-                                        #for attrib,value in sub2element.items():
-                                            ##dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Attribute w1 {}={!r}".format( attrib, value ) )
-                                            #if attrib=='lemma': lemma = value # e.g., '7679'
-                                            #elif attrib=='morph': morph = value
-                                            #elif attrib=='n': n = value # e.g. '1.1'
-                                            #else:
-                                                #logging.warning( "2h54 Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub2location, verseMilestone ) )
-                                                #loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (2h54)".format( attrib, value, sub2location, verseMilestone ) )
-                                                #if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                                        ##dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "wlm", word, lemma, morph )
-                                        #thisBook.appendToLastLine( "{} [{}]".format( word,lemma) )
-                                        ## Now process the subelements
-                                        #segText = segTail = segType = None
-                                        #for sub3element in sub2element:
-                                            #if sub3element.tag == OSISXMLBible.OSISNameSpace+'seg':
-                                                #sub3location = "seg of " + sub2location
-                                                #BibleOrgSysGlobals.checkXMLNoSubelements( sub3element, sub3location+" at "+verseMilestone, '43gx', loadErrors )
-                                                #segText, segTail = sub3element.text, sub3element.tail # XXXxxxxxxxxxxxxxx unused …
-                                                ## Process the attributes
-                                                #segType = None
-                                                #for attrib,value in sub3element.items():
-                                                    #if attrib=='type': segType = value
-                                                    #else:
-                                                        #logging.warning( "963k Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub3location, verseMilestone ) )
-                                                        #loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (963k)".format( attrib, value, sub3location, verseMilestone ) )
-                                                        #if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag and BibleOrgSysGlobals.errorOnXMLWarning: halt
-                                        ##dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "segTTT", segText, segTail, segType )
-                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'seg':
-                                        sub2location = "seg of " + sublocation
-                                        self.validateAndLoadSEG( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
-                                        #BibleOrgSysGlobals.checkXMLNoTail( sub2element, sub2location+" at "+verseMilestone, '9s8v', loadErrors )
-                                        #BibleOrgSysGlobals.checkXMLNoSubelements( sub2element, sub2location+" at "+verseMilestone, '93dr', loadErrors )
-                                        #seg = sub2element.text
-                                        #if BibleOrgSysGlobals.debugFlag: assert seg # That should be the actual segment character
-                                        ## Process the attributes first
-                                        #for attrib,value in sub2element.items():
-                                            #if attrib=='type':
-                                                #segType = value
-                                            #else:
-                                                #logging.warning( "5jj2 Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub2location, verseMilestone ) )
-                                                #loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (5jj2)".format( attrib, value, sub2location, verseMilestone ) )
-                                        #thisBook.addLine( 'segment', "{} [{}]".format( seg,segType) )
-                                    elif sub2element.tag == OSISXMLBible.OSISNameSpace+'note':
-                                        sub2location = "note of " + sublocation
-                                        self.validateCrossReferenceOrFootnote( thisBook, sub2element, sub2location, verseMilestone, loadErrors )
-                                        #if 0:
-                                            #noteTail = sub2element.tail
-                                            #if noteTail: # This is the main text of the verse (follows the inserted note)
-                                                #thisBook.appendToLastLine( clean(noteTail) )
-                                            ## Now process the subelements
-                                            #for sub3element in sub2element:
-                                                #if sub3element.tag == OSISXMLBible.OSISNameSpace+'catchWord':
-                                                    #sub3location = "catchword of " + sub2location
-                                                    #BibleOrgSysGlobals.checkXMLNoAttributes( sub3element, sub3location+" at "+verseMilestone, '3d2a', loadErrors )
-                                                    #BibleOrgSysGlobals.checkXMLNoSubelements( sub3element, sub3location+" at "+verseMilestone, '0o9i', loadErrors )
-                                                    #BibleOrgSysGlobals.checkXMLNoTail( sub3element, sub3location+" at "+verseMilestone, '9k8j', loadErrors )
-                                                    #catchWord = sub3element.text
-                                                #elif sub3element.tag == OSISXMLBible.OSISNameSpace+'rdg':
-                                                    #sub3location = "rdg of " + sub2location
-                                                    #self.validateRDG( thisBook, sub3element, sub3location, verseMilestone, loadErrors ) # Also handles the tail
-                                                    ##if 0:
-                                                        ##BibleOrgSysGlobals.checkXMLNoTail( sub3element, sub3location+" at "+verseMilestone, '8h7g', loadErrors )
-                                                        ##rdg = sub3element.text
-                                                        ### Process the attributes
-                                                        ##rdgType = None
-                                                        ##for attrib,value in sub3element.items():
-                                                            ##if attrib=='type': rdgType = value
-                                                            ##else:
-                                                                ##logging.warning( "3hgh Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub3location, verseMilestone ) )
-                                                                ##loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (3hgh)".format( attrib, value, sub3location, verseMilestone ) )
-                                                        ### Now process the subelements
-                                                        ##for sub4element in sub3element:
-                                                            ##if sub4element.tag == OSISXMLBible.OSISNameSpace+'w':
-                                                                ##sub4location = "w of " + sub3location
-                                                                ##BibleOrgSysGlobals.checkXMLNoTail( sub4element, sub4location+" at "+verseMilestone, '6g5d', loadErrors )
-                                                                ##BibleOrgSysGlobals.checkXMLNoSubelements( sub4element, sub4location+" at "+verseMilestone, '5r4d', loadErrors )
-                                                                ##word = sub4element.text
-                                                                ### Process the attributes
-                                                                ##lemma = None
-                                                                ##for attrib,value in sub4element.items():
-                                                                    ##if attrib=='lemma': lemma = value
-                                                                    ##else:
-                                                                        ##logging.warning( "85kd Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub4location, verseMilestone ) )
-                                                                        ##loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (85kd)".format( attrib, value, sub4location, verseMilestone ) )
-                                                            ##elif sub4element.tag == OSISXMLBible.OSISNameSpace+'seg':
-                                                                ##sub4location = "seg of " + sub3location
-                                                                ##BibleOrgSysGlobals.checkXMLNoTail( sub4element, sub4location+" at "+verseMilestone, '5r4q', loadErrors )
-                                                                ##BibleOrgSysGlobals.checkXMLNoSubelements( sub4element, sub4location+" at "+verseMilestone, '4s3a', loadErrors )
-                                                                ##word = sub4element.text
-                                                                ### Process the attributes
-                                                                ##segType = None
-                                                                ##for attrib,value in sub4element.items():
-                                                                    ##if attrib=='type': segType = value
-                                                                    ##else:
-                                                                        ##logging.warning( "9r5j Unprocessed {!r} attribute ({}) in {} at {}".format( attrib, value, sub4location, verseMilestone ) )
-                                                                        ##loadErrors.append( "Unprocessed {!r} attribute ({}) in {} at {} (9r5j)".format( attrib, value, sub4location, verseMilestone ) )
-                                                            ##else:
-                                                                ##logging.error( "7k3s Unprocessed {!r} sub-element ({}) in {} at {}".format( sub4element.tag, sub4element.text, sub3location, verseMilestone ) )
-                                                                ##loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (7k3s)".format( sub4element.tag, sub4element.text, sub3location, verseMilestone ) )
-                                                                ##if BibleOrgSysGlobals.debugFlag: halt
-                                                #else:
-                                                    #logging.error( "9y5g Unprocessed {!r} sub-element ({}) in {} at {}".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
-                                                    #loadErrors.append( "Unprocessed {!r} sub-element ({}) in {} at {} (9y5g)".format( sub3element.tag, sub3element.text, sub2location, verseMilestone ) )
-                                                    #if BibleOrgSysGlobals.debugFlag: halt
-                                    else:
-                                        logging.error( "05kq Unprocessed {!r} sub-element {} in {} at {}".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
-                                        loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (05kq)".format( sub2element.tag, repr(sub2element.text), sublocation, verseMilestone ) )
-                                        if BibleOrgSysGlobals.strictCheckingFlag or BibleOrgSysGlobals.debugFlag: halt
-                            elif verseMilestone and verseMilestone.startswith('verseContents#'): # it must have been a container -- process the string
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "verseContents", verseMilestone )
-                                bits = verseMilestone.split( '#', 2 )
-                                if BibleOrgSysGlobals.debugFlag: assert len(bits) == 3
-                                if BibleOrgSysGlobals.debugFlag: assert bits[0] == 'verseContents'
-                                if BibleOrgSysGlobals.debugFlag: assert bits[1].isdigit()
-                                if BibleOrgSysGlobals.debugFlag: assert bits[2]
-                                thisData = bits[1]
-                                if bits[2].strip(): thisData += ' ' + bits[2].replace('\n','')
-                                #assert bits[2].strip()
-                                thisBook.addLine( 'v', thisData )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, USFMResults[-4:] )
-                                #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, 'CHOCOLATE', thisBook._rawLines[-4:] )
+                            if verseMilestone and verseMilestone.startswith( ('verseContainer.','verseContents#') ): # it must have been a container
+                                self.loadVerseContainer( thisBook, subelement, verseMilestone, sublocation, loadErrors )
                         else:
                             logging.error( "4s9j Unprocessed {!r} sub-element {} in {} at {}".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
                             loadErrors.append( "Unprocessed {!r} sub-element {} in {} at {} (4s9j)".format( subelement.tag, repr(subelement.text), location, verseMilestone ) )
-- 
2.43.0


From a5b0b94d5e620c1c4ad2eb3efbc79f1be6f8f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:56 +0000
Subject: [PATCH 76/82] fix: VPL exports showed section references and psalm
 titles as text of the verse before them

---
 BibleOrgSys/BibleWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index c87a87b..f141ea0 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1317,7 +1317,7 @@ class BibleWriter( InternalBible ):
                             if haveP: textBuffer = '¶'; haveP = False
                         elif marker == 'p':
                             haveP = True
-                        elif marker in ('pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4',): # Drop out these fields
+                        elif marker in ('pi1','pi2','pi3','pi4', 's1','s2','s3','s4', 'ms1','ms2','ms3','ms4', 'r','sr','mr', 'd','sp','cd','cl',): # Drop out these fields
                             ignoredMarkers.add( marker )
                         elif text:
                             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "do Marker", repr(marker), repr(text) )
-- 
2.43.0


From 58dec0e3a467d2d7cd94fb96585ff22c8cd859ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:26 +0000
Subject: [PATCH 77/82] fix: Palm Bible+ verses after a verse without words
 were given wrong numbers

---
 BibleOrgSys/Formats/PalmDBBible.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BibleOrgSys/Formats/PalmDBBible.py b/BibleOrgSys/Formats/PalmDBBible.py
index 98fd214..fc8c113 100755
--- a/BibleOrgSys/Formats/PalmDBBible.py
+++ b/BibleOrgSys/Formats/PalmDBBible.py
@@ -803,10 +803,11 @@ class PalmDBBible( Bible ):
                         verse += wordBit + separatorCharacter
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, repr(word), repr(verse) )
                     #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "{} {}:{} tC={} vC={} acc={} {!r}".format( BBB, C, V, j, verseCount, accumulatedTokensPerVerseList[verseCount], word ) )
-                    maxCount = accumulatedTokensPerVerseList[verseCount+accumulatedVerseCount]
-                    if C > 1: maxCount += accumulatedTokensPerChapterList[C-1]
-                    #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "cC={} vC={} mC={}".format( accumulatedVerseCount, verseCount, maxCount ) )
-                    if j+1 >= maxCount:
+                    while verseCount+accumulatedVerseCount < accumulatedVersesList[max(C,1)-1]: # there might also be verses without any words
+                        maxCount = accumulatedTokensPerVerseList[verseCount+accumulatedVerseCount]
+                        if C > 1: maxCount += accumulatedTokensPerChapterList[C-1]
+                        #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "cC={} vC={} mC={}".format( accumulatedVerseCount, verseCount, maxCount ) )
+                        if j+1 < maxCount: break
                         if verse: saveSegment( BBB, C, V, verse ); verse = ''
                         verseCount += 1
                         V += 1
-- 
2.43.0


From 7759b86ef6933171a62be3c46a4cc5750f5b4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:41 +0000
Subject: [PATCH 78/82] fix: Sword modules couldn't be read by a process
 without a login terminal

---
 BibleOrgSys/Formats/SwordModules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index 2630468..d63a774 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -90,8 +90,8 @@ DEBUGGING_THIS_MODULE = False
 #   These should be the folders that contain mods.d and modules folders inside them
 DEFAULT_SWORD_SEARCH_FOLDERS = ( '/usr/share/sword/',
                         os.path.join( os.path.expanduser('~'), '.sword/'),
-                        'C:\\Users\\{}\\AppData\\Roaming\\Sword\\'.format( os.getlogin() ),
-                        'C:\\Users\\{}\\AppData\\Local\\VirtualStore\\Program Files\\BPBible\\resources\\'.format( os.getlogin() ),
+                        os.path.join( os.path.expanduser('~'), 'AppData\\Roaming\\Sword\\' ),
+                        os.path.join( os.path.expanduser('~'), 'AppData\\Local\\VirtualStore\\Program Files\\BPBible\\resources\\' ),
                         'C:\\Program Files\\BPBible\\resources\\', 'C:\\Program Files (x86)\\BPBible\\resources\\',
                         'TestData/', )
 SwordSearchFolders = list( DEFAULT_SWORD_SEARCH_FOLDERS )
-- 
2.43.0


From 931b4e746cfbea57cfaa681d7388e2a5cf0dfd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:09 +0000
Subject: [PATCH 79/82] fix: Sword modules in UTF-8 were read as Latin-1 (and
 their offsets in bytes must not be taken for characters)

---
 BibleOrgSys/Formats/SwordModules.py | 50 +++++++++++++----------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index d63a774..2cb8ba5 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -180,7 +180,7 @@ class SwordModuleConfiguration:
         if 'Encoding' in self.confDict:
             #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.confDict['Encoding']); halt
             assert self.confDict['Encoding'] in ('UTF-8',)
-            #self.encoding = 'utf-8' # override the default
+            self.encoding = 'utf-8' # override the default
             if self.abbreviation in ('ab','barnes','navelinked','dandettebiblen',): self.encoding = 'iso-8859-15' # Not sure how/why they got this wrong!
 
         # See if we have any new fields
@@ -803,6 +803,17 @@ class SwordModule():
     # end of SwordModule.loadRawGenBook
 
 
+    def decodeText( self, someBytes:bytes ) -> str:
+        """
+        Given the bytes of a verse, etc. from a data file, return the text.
+        """
+        try: return someBytes.decode( self.SwordModuleConfiguration.encoding )
+        except UnicodeDecodeError:
+            logging.warning( "Unable to properly decode {} {} {} {!r}…".format( self.SwordModuleConfiguration.encoding, self.SwordModuleConfiguration.name, self.SwordModuleConfiguration.modCategory, someBytes[:40] ) )
+            return someBytes.decode( self.SwordModuleConfiguration.encoding, 'replace' )
+    # end of SwordModule.decodeText
+
+
     def createChapterOffsets( self, versificationString ):
         """
         Create a list of chapter offsets (organised by book) to allow direct access to the chapter information.
@@ -1062,18 +1073,10 @@ class SwordModule():
                                         #    logging.error( "Unable to decompress {} {} {} {} chunk #{} {}->{}".format( self.SwordModuleConfiguration.name, Testament, self.SwordModuleConfiguration.modCategory, unit, j, compressedLength, uncompressedLength ) )
                                         #    uncompressedLength, uncompressedChunk = 0, b''
                                         assert len(uncompressedChunk) == uncompressedLength
-                                        try:
-                                            chunk = uncompressedChunk.decode( self.SwordModuleConfiguration.encoding )
-                                            #if testament=='nt' and j>250: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, '\n', j, chunk )
-                                        except KeyError:
-                                            logging.warning( "Unable to properly decode {} {} {} {} {} chunk #{} {}->{}".format( self.SwordModuleConfiguration.encoding, self.SwordModuleConfiguration.name, Testament, self.SwordModuleConfiguration.modCategory, unit, j, compressedLength, uncompressedLength ) )
-                                            dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", uncompressedChunk[:40] )
-                                            if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
-                                            chunk = uncompressedChunk.decode( self.SwordModuleConfiguration.encoding, 'replace' )
-                                            #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, self.SwordModuleConfiguration.name, self.SwordModuleConfiguration.encoding, chunk )
+                                        chunk = uncompressedChunk # Decoded later because the verse offsets and lengths are in bytes
                                     else:
                                         blankCount += 1
-                                        chunk = ''
+                                        chunk = b''
                                     blockStuff.append( chunk )
                             assert blankCount == 0
                             vPrint( 'Info', DEBUGGING_THIS_MODULE, "    {} {} {} book entries read{}".format( len(blockStuff), Testament, self.SwordModuleConfiguration.modCategory, " ({} were blank)".format(blankCount) if blankCount else '' ) )
@@ -1094,9 +1097,10 @@ class SwordModule():
                                     except IndexError:
                                         logging.error( "Compressed {} {} {} skipped non-existing chunk {} / {} for {!r}" \
                                             .format( self.SwordModuleConfiguration.name, self.SwordModuleConfiguration.modCategory, unit, blockNumber, verseOffset, verseLength ) )
-                                        chunk = ''
+                                        chunk = b''
                                     if len(chunk)!=verseLength: vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "PROBLEM:", ref, len(chunk), verseLength )
                                     #assert len(chunk) == verseLength
+                                    chunk = self.decodeText( chunk )
                                 else:
                                     blankCount += 1
                                     chunk = ''
@@ -1151,11 +1155,11 @@ class SwordModule():
                     lastBBB = None
                     filepath = os.path.join( self.dataFolder, testament )
                     if self.inMemoryFlag:
-                        with open( filepath, 'rt', encoding=self.SwordModuleConfiguration.encoding ) as textFile: # Load all the Bible text into self.swordData
+                        with open( filepath, 'rb' ) as textFile: # Load all the Bible text into self.swordData
                             for j, (verseOffset, verseLength) in enumerate(vssData):
-                                if verseLength:
+                                if verseLength: # Note: offsets and lengths are in bytes
                                     textFile.seek( verseOffset )
-                                    chunk = textFile.read( verseLength )
+                                    chunk = self.decodeText( textFile.read( verseLength ) )
                                 else:
                                     blankCount += 1
                                     chunk = ''
@@ -1492,26 +1496,18 @@ class SwordModule():
                         #    uncompressedLength, uncompressedChunk = 0, b''
                         #    halt
                     assert len(uncompressedChunk) == uncompressedLength
-                    try:
-                        textChunk = uncompressedChunk.decode( self.SwordModuleConfiguration.encoding )
-                    except UnicodeDecodeError:
-                        logging.warning( "Unable to properly decode {} {} {} {} book chunk #{} {}->{}".format( self.SwordModuleConfiguration.encoding, self.SwordModuleConfiguration.name, self.SwordModuleConfiguration.modCategory, unit, fileOffset, compressedLength, uncompressedLength ) )
-                        dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "  ", uncompressedChunk[:40] )
-                        if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
-                        textChunk = uncompressedChunk.decode( self.SwordModuleConfiguration.encoding, 'replace' )
-                    verseText = textChunk[verseOffset:verseOffset+verseLength]
+                    verseText = uncompressedChunk[verseOffset:verseOffset+verseLength] # Note: offsets and lengths are in bytes
                     if len(verseText)!=verseLength:
                         vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "WHY!", reference, len(verseText), verseLength )
                     #assert len(verseText) == verseLength
-                    return verseText
+                    return self.decodeText( verseText )
                 return ''
             else: # it's not compressed
                 verseOffset, verseLength = indexInfo
                 if verseLength:
-                    with open( filepath, 'rt', encoding=self.SwordModuleConfiguration.encoding ) as textFile:
+                    with open( filepath, 'rb' ) as textFile:
                         textFile.seek( verseOffset )
-                        verseText = textFile.read( verseLength )
-                    return verseText
+                        return self.decodeText( textFile.read( verseLength ) ) # Note: offsets and lengths are in bytes
                 else: return ''
     # end of SwordModule.getRawVersifiedData
 
-- 
2.43.0


From d0a5b504b63cc8fdad18a5d606b321b91a8b5205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:36 +0000
Subject: [PATCH 80/82] fix: line and paragraph breaks of Sword modules turned
 into asterisks in the text

---
 BibleOrgSys/Formats/SwordModules.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/BibleOrgSys/Formats/SwordModules.py b/BibleOrgSys/Formats/SwordModules.py
index 2cb8ba5..4e06371 100755
--- a/BibleOrgSys/Formats/SwordModules.py
+++ b/BibleOrgSys/Formats/SwordModules.py
@@ -1934,9 +1934,7 @@ class SwordBibleModule( SwordModule, Bible ):
                             if result:
                                 if '\n' in result or '\r' in result:
                                     logging.warning( "SwordBibleModule.loadBooks: Result with CR or LF {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
-                                #thisBook.addLine( 'v', "{} {}".format( intV, result ) )
-                                thisBook.addLine( 'v', "{}".format( intV ) )
-                                thisBook.addLine( 'v~', "{}".format( result.replace( '\n', '' ) ) )
+                                thisBook.addVerseSegments( V, result.replace( '\n', '' ), f'{self.name} {BBB} {C}:{V}' ) # Handles our newline codes
                             elif intV!=0 and BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Why doesn't {} have any text for {} {}:{}".format( self.name, BBB, C, intV ) )
                     self.books[BBB] = thisBook
@@ -1995,9 +1993,7 @@ class SwordBibleModule( SwordModule, Bible ):
                             if result:
                                 if '\n' in result or '\r' in result:
                                     logging.warning( "SwordBibleModule.loadBook: Result with CR or LF {} {}:{} {}".format( self.name, BBB, C, intV, repr(result) ) )
-                                #thisBook.addLine( 'v', "{} {}".format( intV, result ) )
-                                thisBook.addLine( 'v', "{}".format( intV ) )
-                                thisBook.addLine( 'v~', "{}".format( result.replace( '\n', '' ) ) )
+                                thisBook.addVerseSegments( V, result.replace( '\n', '' ), f'{self.name} {BBB} {C}:{V}' ) # Handles our newline codes
                             elif intV!=0 and BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE:
                                 vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "Why doesn't {} have any text for {} {}:{}".format( self.name, BBB, C, intV ) )
                     self.books[BBB] = thisBook
-- 
2.43.0


From 5e36a6a9b0f8995206b36c8df49dfe5916bb7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:30 +0000
Subject: [PATCH 81/82] fix: exporting BibleDoor pages failed if the text
 contained a caret

---
 BibleOrgSys/BibleWriter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index f141ea0..be1c17b 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -3256,6 +3256,7 @@ class BibleWriter( InternalBible ):
                     logger.error( "_toBibleDoorJSONCHTML programming error: unprocessed backslash code in {} {}:{} section: …{!r}…".format( sectionBBB, sectionC, sectionV, segment ) )
                     vPrint( 'Quiet', DEBUGGING_THIS_MODULE, "_toBibleDoorJSONCHTML: unprocessed backslash code in {} {}:{} section: …{!r}…".format( sectionBBB, sectionC, sectionV, segment ) )
                     if BibleOrgSysGlobals.debugFlag and DEBUGGING_THIS_MODULE: halt
+                sectionHTML = sectionHTML.replace( '^', '&#94;' ) # The compression uses the character itself for something else
                 HTMLSections.append( sectionHTML )
                 indexEntry1 = sectionBCV[0],sectionBCV[1],sectionBCV[2],lastC,lastV,uncompressedFileOffset,len(sectionHTML)
                 currentUncompressedIndex.append( indexEntry1 )
-- 
2.43.0


From 0d17d7673dd831774c2e3e2cef953c8905f190f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:04 +0000
Subject: [PATCH 82/82] fix: links from the notes of HTML pages back to their
 verses led nowhere

The target was built for C:V only, so C.V references gave #C1.2, and the
verse ids of bridges had the whole bridge, which no link refers to.
---
 BibleOrgSys/BibleWriter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/BibleOrgSys/BibleWriter.py b/BibleOrgSys/BibleWriter.py
index be1c17b..262a950 100755
--- a/BibleOrgSys/BibleWriter.py
+++ b/BibleOrgSys/BibleWriter.py
@@ -1777,9 +1777,9 @@ class BibleWriter( InternalBible ):
                 """
                 #dPrint( 'Quiet', DEBUGGING_THIS_MODULE, "formatHTMLVerseText.liveCV( {} )".format( repr(CV) ) )
                 if len(CV) < 3: return ''
-                if CV and CV[-1]==':': CV = CV[:-1]
+                if CV[-1] in (':','.'): CV = CV[:-1]
 
-                result = 'C' + CV.strip().replace( ':', 'V')
+                result = 'C' + CV.strip().replace( ':', 'V').replace( '.', 'V')
                 for bridgeChar in ('-', '–', '—'): # hyphen, endash, emdash
                     ix = result.find( bridgeChar )
                     if ix != -1: result = result[:ix] # Remove verse bridges
@@ -2421,7 +2421,7 @@ class BibleWriter( InternalBible ):
                         gotVP = None
                     if not haveOpenParagraph:
                         logger.warning( "toHTML5: Have verse number {} outside a paragraph in {} {}:{}".format( text, BBB, C, V ) )
-                    writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+V)] ); haveOpenVerse = True
+                    writerObject.writeLineOpen( 'span', [('class','verse'),('id','C'+C+'V'+re.split('[-–—]',V)[0])] ); haveOpenVerse = True
                     if V == '1': # Different treatment for verse 1
                         writerObject.writeLineOpenClose( 'span', ' ', ('class','verseOnePrespace') )
                         writerObject.writeLineOpenClose( 'span', V, ('class','verseOneNumber') )
-- 
2.43.0

