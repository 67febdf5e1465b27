"""Writes /verif/properties.jsonl (run by hand when the property list changes)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

p('P01','Parallel loading gives exactly the Bible that sequential loading gives',
 "Loading a Bible with worker processes yields the same books, in the same order, with the same text, annotations, names, versification/section indexes and error reports as loading the same source one book at a time, for every multi-book source format, every number of workers and every order in which the workers run and finish. A source that loads sequentially also loads in parallel, and afterwards the program is back in the state where the next load may use worker processes again.",
 ['schedules','inputs','configurations'],
 "every interleaving and completion order of the worker processes, every chunking of books over workers, every worker count >= 1, and every folder of USFM, ESFM, USX, Paratext 7/8, BCV, GoBible, uW notes/OBS, OSIS or pickled books, including blank, unknown and missing books",
 "The suite runs with worker processes switched off (a single process), so no schedule of the parallel path is ever executed; it samples a few fixed folders.",
 ['BibleOrgSys/Formats/USFMBible.py','BibleOrgSys/Formats/USFM2Bible.py','BibleOrgSys/Formats/ESFMBible.py','BibleOrgSys/Formats/USXXMLBible.py','BibleOrgSys/Formats/BCVBible.py','BibleOrgSys/Formats/GoBible.py','BibleOrgSys/Formats/PTX7Bible.py','BibleOrgSys/Formats/PTX8Bible.py','BibleOrgSys/Formats/PickledBible.py','BibleOrgSys/Formats/OSISXMLBible.py','BibleOrgSys/Formats/uWNotesBible.py','BibleOrgSys/Formats/uWOBSBible.py','BibleOrgSys/Internals/InternalBible.py'],
 [('pool.map over (book,filename) and stashing in the parent','Formats/USFMBible.py loadBooks/_loadBookMP and the same pair in the other loaders'),('one book per worker, merged by stashBook','Internals/InternalBible.py stashBook'),('nesting guard flag','BibleOrgSysGlobals.py alreadyMultiprocessing')],
 [('books','book code -> loaded book, insertion order is book order','Internals/InternalBible.py')],
 ['load() then iterate books, entries, errors, names'])

p('P02','Results do not depend on listing order, hash seed, clock or current folder',
 "For a fixed source and settings, the recognised source type, the loaded Bible, its names, discovered properties, check results and error lists, and the text of its exports are the same whatever order the file system lists folders in, whatever the process's hash seed, current folder, file timestamps or wall-clock date (apart from fields that are documented to carry a date, a path or a file time).",
 ['configurations','inputs','schedules'],
 "every enumeration order returned by directory listing, every hash seed, every clock value (including jumps backwards between reads), every current working directory, over all supported source folders",
 "Each test runs once on one machine with one listing order, one hash seed and one clock.",
 ['BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Internals/InternalBibleBook.py','BibleOrgSys/InputOutput/USFMFilenames.py','BibleOrgSys/InputOutput/USXFilenames.py','BibleOrgSys/UnknownBible.py','BibleOrgSys/BibleWriter.py','BibleOrgSys/Formats/USFMBible.py'],
 [('filenames sorted into canonical book order','InputOutput/USFMFilenames.py getMaximumPossibleFilenameTuples'),('type decision over per-format scans','UnknownBible.py search'),('ordered dictionaries for results','Internals/InternalBible.py getCheckResults')],
 None,['load, check, getCheckResults, exports'])

p('P03','On-demand book access equals a full load, for every history of requests',
 "Starting from a Bible that has only been preloaded, any sequence of on-demand book loads, repeats, full loads, re-indexing and verse, context, chapter-count and verse-count queries in any order gives the same answers as those queries on a freshly and completely loaded copy of the same source, and a query never changes the answer of a later one. After a book's source has been edited and the book is reloaded, queries give the new text and no other book changes.",
 ['histories','inputs'],
 "every finite sequence of {load a book, load again, load all, query verse text/data/context/range, count chapters/verses, edit on disk, reload} over every book set and verse key",
 "Tests load everything once and issue a handful of queries in one fixed order; no history of loads, queries, edits and reloads is sampled.",
 ['BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Internals/InternalBibleBook.py','BibleOrgSys/Internals/InternalBibleIndexes.py','BibleOrgSys/Formats/USFMBible.py','BibleOrgSys/Formats/ESFMBible.py','BibleOrgSys/Formats/USXXMLBible.py','BibleOrgSys/Formats/PickledBible.py'],
 [('lazy loading with tried flags','Internals/InternalBible.py loadBookIfNecessary/__getitem__'),('reload','Internals/InternalBible.py reloadBook'),('chapter/verse index lookup','Internals/InternalBibleIndexes.py getVerseEntries*')],
 [('triedLoadingBook','book code -> a load was attempted','Internals/InternalBible.py'),('bookNeedsReloading','book code -> next load must re-read','Internals/InternalBible.py')],
 ['getVerseText, getVerseDataList, getContextVerseData, getNumChapters, getNumVerses'])

p('P04','Read faults while loading never yield silently wrong text and never wedge it',
 "If reading the source fails, is cut short or a worker fails while a Bible is being loaded, the load either raises an error or leaves the affected book out with the fault logged; every book that is present holds exactly the text on the disk, and the other books are unaffected. Once the fault is gone, loading the same source again in the same program gives the fault-free Bible.",
 ['fault_sequences','inputs','schedules'],
 "every position and kind of read fault (open failure, error mid-file, permission denied, file vanishing between listing and opening, short reads, worker exception) in any load of any supported source, sequential or parallel, followed by a retry",
 "No test injects a read error or a failing worker.",
 ['BibleOrgSys/InputOutput/USFMFile.py','BibleOrgSys/InputOutput/ESFMFile.py','BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Formats/USFMBible.py','BibleOrgSys/Formats/USFMBibleBook.py','BibleOrgSys/Formats/ESFMBible.py','BibleOrgSys/Formats/USXXMLBible.py','BibleOrgSys/Formats/PickledBible.py','BibleOrgSys/Formats/VPLBible.py','BibleOrgSys/Formats/OSISXMLBible.py'],
 [('a book is stashed only after it was read whole','Formats/USFMBible.py loadBook'),('encoding fall-back reads','InputOutput/USFMFile.py read'),('nesting guard flag cleared after the pool','BibleOrgSysGlobals.py alreadyMultiprocessing')])

p('P05','Find-and-replace on source files is exact and loses no text on a crash',
 "A confirmed find-and-replace rewrites exactly the files in which a replacement was confirmed, replacing exactly the confirmed occurrences and nothing else, and its reported counts equal what was done; skip, skip-all, stop and undo answers leave unconfirmed occurrences untouched. With backups requested, at every crash, disk-full or write-error point each source file's text, old or new, is still whole either under its own name or under its backup name.",
 ['crash_points','fault_sequences','histories','inputs'],
 "every find/replace/option combination, every sequence of confirmation answers, every crash point and write fault during saving, over every set of source files",
 "The suite never calls find-and-replace, let alone crashes it.",
 ['BibleOrgSys/Formats/USFMBible.py','BibleOrgSys/Formats/USFM2Bible.py','BibleOrgSys/BibleOrgSysGlobals.py'],
 [('rename to .bak then rewrite','BibleOrgSysGlobals.py backupAnyExistingFile'),('replacements collected per file, saved at the end','Formats/USFMBible.py findReplaceText')])

p('P06','Rotating backups never lose the newest versions, across any history or crash',
 "Each backup of an existing file moves its current content to the newest backup slot and shifts older backups by one, dropping only the oldest beyond the requested number; other files are untouched and a missing file is a no-op. A crash or file-system error at any point of a backup leaves every version that should have been kept present under one of the file's names.",
 ['histories','crash_points','fault_sequences'],
 "every sequence of writes and backups with every number of slots and extension, every crash point and rename/remove failure inside a rotation",
 "The helper is exercised only as a side effect, with one slot and no fault.",
 ['BibleOrgSys/BibleOrgSysGlobals.py','BibleOrgSys/InputOutput/MLWriter.py'],
 [('remove oldest, rename upwards','BibleOrgSysGlobals.py backupAnyExistingFile')])

p('P07','Exporting in parallel equals exporting in turn, in bounded time',
 "Exporting a Bible to all formats with worker processes produces the same set of output files with the same contents and the same per-format success flags as running the exporters one at a time, for every schedule of the workers. If a worker stalls or dies, the whole export still returns a verdict within its stated time limit, reports no finished exporter as failed, and a later export in the same program works normally.",
 ['schedules','fault_sequences','inputs','configurations'],
 "every interleaving of the exporters' file operations, every worker count, every stalled or killed worker at any point, over every loaded Bible",
 "The suite exports with worker processes switched off; the parallel batch with its time limit is never run.",
 ['BibleOrgSys/BibleWriter.py','BibleOrgSys/BibleOrgSysGlobals.py'],
 [('map_async with a wait limit','BibleWriter.py doAllExports'),('one output sub-folder per exporter','BibleWriter.py doAllExports'),('exporter isolation','BibleWriter.py doExportHelper')])

p('P08','A reported export success means a complete output, whatever the disk does',
 "When an export reports success, every file it is meant to produce is present and complete, the same as in a fault-free run, even if writes, creates, renames or closes failed, were short or the disk filled up during it; otherwise the export raises or reports failure. In an all-formats export, a disk fault that hits one format is reported for that format and leaves the outputs and results of the others unchanged.",
 ['fault_sequences','inputs'],
 "every placement and kind of write-side disk fault (open failure, error or disk-full on write/flush/close, short writes, failed mkdir/rename/remove) during any exporter's run over any loaded Bible",
 "Tests run every exporter only on a healthy disk and ignore the contents.",
 ['BibleOrgSys/BibleWriter.py','BibleOrgSys/InputOutput/MLWriter.py','BibleOrgSys/Formats/theWordBible.py','BibleOrgSys/Formats/MySwordBible.py','BibleOrgSys/Formats/ESwordBible.py','BibleOrgSys/Formats/MyBibleBible.py','BibleOrgSys/Formats/EasyWorshipBible.py','BibleOrgSys/Formats/OpenSongXMLBible.py','BibleOrgSys/Formats/USXXMLBible.py','BibleOrgSys/Formats/PickledBible.py','BibleOrgSys/Internals/InternalBible.py'],
 [('errors propagate out of exporters','BibleWriter.py to* methods'),('per-exporter catch in the batch','BibleWriter.py doExportHelper / doAllExports')])

p('P09','Exporting never alters the loaded Bible and is repeatable in any order',
 "Running any sequence of exporters on a loaded Bible, including repeats and exporters that fail part-way, leaves its books, text, annotations, indexes, names, settings and discovered properties unchanged, and each exporter's output depends only on the Bible, not on which exporters ran before it.",
 ['histories','inputs','fault_sequences'],
 "every order and multiset of exporters, with or without a fault interrupting some of them, over every loaded Bible",
 "The suite runs exporters in a single fixed order and never compares the Bible before and after, or outputs between orders.",
 ['BibleOrgSys/BibleWriter.py','BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Internals/InternalBibleBook.py','BibleOrgSys/Formats/PickledBible.py'],
 [('exporters only read self.books','BibleWriter.py to* methods'),('module-level exporter state re-initialised per run','BibleWriter.py')],
 None,['canonical digest of the Bible before/after each exporter'])

p('P10','A saved Bible restores equal, or reports that it cannot',
 "A Bible saved as a pickled Bible, in folder or zipped form, or as a single saved object, and restored in another process has the same books in the same order with the same text, annotations, indexes and metadata. If the saving was interrupted by a crash or write error, or the stored bytes were truncated, corrupted or partly missing, restoring either reports an error or yields exactly that Bible, never a Bible with silently missing, altered or stale text.",
 ['crash_points','fault_sequences','inputs','histories'],
 "every crash point and write fault during saving (fresh or over an older save), every truncation or damage of stored files, every Bible including ones with one or two books",
 "Tests save and load one Bible once on a healthy disk and check only that it does not raise.",
 ['BibleOrgSys/Formats/PickledBible.py','BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/BibleOrgSysGlobals.py'],
 [('versioned header, per-book pickles, zip container','Formats/PickledBible.py createPickledBible/preload/_loadBookEssentials'),('pickleObject/unpickleObject','BibleOrgSysGlobals.py')])

p('P11','Reference tables are the same whichever stored form they are loaded from',
 "Book codes, versification, book order, book names, punctuation, languages, markers and the other reference tables have the same contents and give the same lookup answers whether they are loaded from the original data file or from one of its generated forms, for all file timestamps and clock settings, and in any loading order or number of times. A damaged or half-written generated form is reported or bypassed and never yields a different table.",
 ['configurations','fault_sequences','crash_points','histories'],
 "every combination of present, missing, stale, truncated or corrupted generated files and file times for each reference table, every crash point in regenerating them, and every order of loading the tables",
 "Tests run with whatever files and times the checkout has, so exactly one source path per table is exercised, always undamaged.",
 ['BibleOrgSys/Reference/BibleBooksCodes.py','BibleOrgSys/Reference/BibleVersificationSystems.py','BibleOrgSys/Reference/BibleBookOrders.py','BibleOrgSys/Reference/BibleBooksNames.py','BibleOrgSys/Reference/BiblePunctuationSystems.py','BibleOrgSys/Reference/BibleOrganisationalSystems.py','BibleOrgSys/Reference/BibleReferences.py','BibleOrgSys/Reference/ISO_639_3_Languages.py','BibleOrgSys/Reference/USFM2Markers.py','BibleOrgSys/Reference/USFM3Markers.py','BibleOrgSys/Reference/BibleStylesheets.py','BibleOrgSys/Reference/Converters'],
 [('pickle/JSON/XML choice by modification time','Reference/*.py loadData'),('exporters of the derived forms','Reference/Converters/*Converter.py pickle/exportDataToJSON')])

p('P12','Shared lookup objects answer independently of what was asked before',
 "Book-name, reference-string, versification, book-order, stylesheet and book-code lookup objects that are kept and shared give each question the same answer no matter which other valid or invalid questions, on the same or other instances, came before, and equal to the answer of a fresh object.",
 ['histories','inputs'],
 "every sequence of lookups and parses on shared instances, including failed ones, compared per question with a fresh instance in a fresh process",
 "Tests ask a fixed list of questions in one order and never compare with fresh instances.",
 ['BibleOrgSys/Reference/BibleReferences.py','BibleOrgSys/Reference/VerseReferences.py','BibleOrgSys/Reference/BibleBooksCodes.py','BibleOrgSys/Reference/BibleBooksNames.py','BibleOrgSys/Reference/BibleVersificationSystems.py','BibleOrgSys/Reference/BibleBookOrders.py','BibleOrgSys/Reference/BibleOrganisationalSystems.py','BibleOrgSys/Internals/InternalBible.py'],
 [('memoised name and abbreviation tables','Reference/BibleBooksNames.py, Internals/InternalBible.py guessXRefBBB'),('parser state reset per parse','Reference/BibleReferences.py')])

p('P13','Text written to disk in a Bible format reads back verse for verse',
 "When a Bible is exported to a format the system can also import and is read back by a program started later, every verse has the same words in the same book, chapter and verse, with no verse lost, duplicated or moved, apart from the markup that the format is documented not to carry; formats that carry them (USFM, USX, BCV, pickles, and partly OSIS, USFX, Zefania, theWord, MySword and MyBible) also bring back the headings, introductions and notes at their places. The same holds for Bibles written by other programs (in formats that are only read, and in OpenSong, Zefania, Haggai, OSIS, USFX, USX, Palm Bible+ and Sword modules, with styled words, notes and line breaks of their own): every verse the source has is in the loaded Bible with the words it has in the source. This holds when the disk serves the transfer in short reads and short writes and lists folders in any order.",
 ['inputs','histories','configurations'],
 "every Bible, every exporter/importer pair and read-only format (USFM 2/3, ESFM, USX, VPL, CSV, Unbound, YET, GoBible, EasyWorship, BCV, OSIS, Zefania, OpenSong, theWord, MySword, e-Sword, MyBible, Palm Bible+, Sword ...), every fragmentation of reads and writes and every listing order",
 "Tests never read an export back and compare it with the Bible it came from.",
 ['BibleOrgSys/BibleWriter.py','BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Internals/InternalBibleBook.py','BibleOrgSys/Formats/USFMBible.py','BibleOrgSys/Formats/ESFMBible.py','BibleOrgSys/Formats/USXXMLBible.py','BibleOrgSys/Formats/SwordModules.py','BibleOrgSys/Formats/SwordResources.py','BibleOrgSys/Formats/PalmDBBible.py','BibleOrgSys/Formats/VPLBible.py','BibleOrgSys/Formats/BCVBible.py','BibleOrgSys/Formats/OSISXMLBible.py','BibleOrgSys/Formats/ZefaniaXMLBible.py','BibleOrgSys/Formats/OpenSongXMLBible.py','BibleOrgSys/Formats/theWordBible.py','BibleOrgSys/Formats/MySwordBible.py','BibleOrgSys/Formats/ESwordBible.py','BibleOrgSys/Formats/MyBibleBible.py'],
 [('exporters','BibleWriter.py to*'),('importers','Formats/*.py load'),('line normalisation','Internals/InternalBibleBook.py processLines')])

p('P14','Downloads from online Bible services are all-or-nothing and retryable',
 "A downloaded Bible is used from the local cache only if it was completely fetched and unpacked; after any network failure, damaged or truncated archive, disk error, full disk or crash during a download, the next attempt fetches it again and yields the complete Bible rather than a partial one or a permanent failure. A newer issue on the server replaces an older cached one, and an up-to-date cache is used without downloading.",
 ['fault_sequences','crash_points','histories','schedules'],
 "every sequence of downloads, server updates, network faults (refused, error status, truncated or corrupted body, timeout), disk faults and crashes at every file operation, with any clock skew between server and client",
 "There is no network in the tests, so the downloading code is not exercised at all.",
 ['BibleOrgSys/Online/Door43OnlineCatalog.py','BibleOrgSys/Online/Door43ContentServiceOnline.py'],
 [('issue time against unpacked folder time','Online/Door43OnlineCatalog.py Door43CatalogBible, Online/Door43ContentServiceOnline.py DCSBible'),('single-book fetch','Online/Door43ContentServiceOnline.py DCSBible.loadBookIfNecessary')])

p('P15','Installing a Sword module is reported done only when it is complete',
 "An installation that reports success has stored every file of the module byte for byte as the repository serves it, with its description; after a network or disk fault or a crash at any point the module is either fully installed or not listed as installed, and repeating the installation completes it. Refreshing repositories lists exactly what each repository serves and leaves the user's chosen repository as it was, even if one repository fails.",
 ['fault_sequences','crash_points','histories'],
 "every sequence of refresh and install operations over several repositories, every network fault (refused, dropped mid-transfer, truncated) and disk fault or crash at every file operation",
 "There is no network in the tests and the installer is not exercised.",
 ['BibleOrgSys/Online/SwordInstallManager.py'],
 [('conf file written last','Online/SwordInstallManager.py installModule'),('index archive unpacking','Online/SwordInstallManager.py refreshRemoteSource')])

p('P16','Reading is read-only and writing stays where it was told to',
 "Detecting, loading, checking, searching and querying a Bible never create, change, rename or delete anything in its source folder or elsewhere outside the program's own data folder, and an export creates, changes or deletes files only under the output folder it was given. This holds in parallel and sequential operation and when operations fail part-way.",
 ['inputs','histories','fault_sequences','schedules'],
 "every history of detect, load, check, search, query and export operations over every source folder and every export destination, with any fault",
 "Tests never compare the file system before and after.",
 ['BibleOrgSys/UnknownBible.py','BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/BibleWriter.py','BibleOrgSys/Formats'],
 [('read-only opens in loaders','Formats/*.py'),('default output folder handling','BibleWriter.py __adjustControlFolder / to*')],
 None,['recorded stream of file-system mutations'])

p('P17','Verse caches for online sources are transparent and bounded',
 "Asking an online Bible for verses through its cache returns, for every history of requests, exactly the passage the service serves for that reference, never another passage's or a truncated one's, keeps at most the stated number of entries and evicts the least recently used. A request that failed on the network is not remembered as an answer and succeeds when the service is back.",
 ['histories','fault_sequences','inputs'],
 "every sequence of verse and context requests over more keys than the cache holds, with any network fault or service update between them",
 "The tests cannot reach the network, so the caching path has no real history behind it.",
 ['BibleOrgSys/Online/GenericOnlineBible.py','BibleOrgSys/Online/BibleBrainOnline.py','BibleOrgSys/Formats/SwordModules.py'],
 [('ordered-dictionary cache','Online/GenericOnlineBible.py cacheVerse/getCachedVerseDataList')])

p('P18','First start and logging survive crashes, full disks and races',
 "Starting the program creates its data folders and settings once and keeps existing settings; after a crash or disk error at any point of start-up, or when two programs start at the same time, the next start succeeds with well-formed settings and no loss of the user's existing values. Starting a log keeps the previous log as its backup.",
 ['crash_points','fault_sequences','schedules','histories'],
 "every crash point and disk fault during start-up, every interleaving of two starts, every pre-existing state of the settings file and folders",
 "Tests start from whatever state the home folder has, once, with no faults.",
 ['BibleOrgSys/BibleOrgSysGlobals.py','BibleOrgSys/Misc/singletons.py'],
 [('settings loading and creation','BibleOrgSysGlobals.py module level, findHomeFolderpath, setupLoggingToFile'),('log rotation','BibleOrgSysGlobals.py setupLoggingToFile/addLogfile')])

p('P19','Searching a Bible finds exactly the occurrences that are in its text',
 "A search over a loaded Bible (findText) reports every occurrence of the text or regular expression that the options ask for - word mode, case, diacritics, books, chapters, introductions, markers, notes - once each, with its verse, its marker and the text around it as it stands in the Bible, and nothing else; its summary lists the books searched and found in. The answer depends only on the options and on what the Bible holds at that time: not on earlier searches, on options dictionaries and histories used again, on how or in which order the books were loaded, on reloads of changed books that succeeded or failed, or on checks, indexing and exports in between. A search changes neither the Bible nor the options it was given, and puts the text at the end of the search history once.",
 ['histories','inputs','schedules','fault_sequences'],
 "every sequence of searches (with fresh or reused options), loads with or without worker processes, successful and failing reloads, checks, indexing and exports, for every text and combination of options",
 "The tests run no search with a known set of occurrences, and none after another operation on the same Bible.",
 ['BibleOrgSys/Internals/InternalBible.py','BibleOrgSys/Internals/InternalBibleInternals.py','BibleOrgSys/BibleOrgSysGlobals.py'],
 [('search','Internals/InternalBible.py InternalBible.findText'),('folding of case and diacritics','BibleOrgSysGlobals.py removeAccents'),('text and extras of a line','Internals/InternalBibleInternals.py InternalBibleEntry')])

p('P20','What the reading editions show is what the Bible holds',
 "An export that is made to be read (HTML pages, plain text, Markdown, SwordSearcher text, verse-per-line listings, a listing of the Bible's entries, BibleDoor pages) shows every book, title, verse, heading, introduction paragraph and note that the format shows at all, each once, in order, under its own number and with exactly its text (no markers or internal entries in it, nothing lost or repeated); links to notes lead to a note and the note's link back to its verse, compressed pages expand to the uncompressed ones and their index covers every byte; zip and tar collections hold exactly the files beside them. It does not matter through which formats the Bible came, in which order folders are listed, how much one write call accepts, or whether an earlier export into the same folder was interrupted by a crash or a disk error.",
 ['inputs','histories','fault_sequences','crash_points'],
 "every text and markup, every chain of formats it came through, every earlier crash or disk error in the same folder, every directory order and short write",
 "The tests only check that the exports don't raise; they never read what the pages say.",
 ['BibleOrgSys/BibleWriter.py','BibleOrgSys/InputOutput/MLWriter.py'],
 [('reading editions','BibleWriter.py toText, toVPL, toMarkdown, toHTML5, toBibleDoor, toSwordSearcher, toPseudoUSFM'),('collections','BibleWriter.py zipfile/tarfile blocks at the end of the exports')])

# --- not applicable ones
p('N01','Scripture reference strings parse to the references they denote',
 "Every well-formed Scripture reference string in a supported punctuation and book-name system parses to exactly the references it denotes, and malformed ones are reported.",
 ['inputs'],"every reference string, punctuation system and book-name system",
 "Tests sample a list of strings.",
 ['BibleOrgSys/Reference/BibleReferences.py','BibleOrgSys/Reference/VerseReferences.py'],[('state-machine parser','Reference/BibleReferences.py parseReferenceString')])
p('N02','Verse references convert faithfully between versification systems',
 "Mapping a verse between versification systems and back returns the same verse wherever both systems contain it, and never yields a verse that does not exist.",
 ['inputs'],"every verse of every book in every pair of systems","Tests check a few verses.",
 ['BibleOrgSys/Reference/BibleVersificationSystems.py'],[('mapping tables','Reference/BibleVersificationSystems.py')])
p('N03','Names and text are escaped so that generated files are well-formed',
 "Any book name or text that is put into a file name, XML or HTML output yields a legal file name and well-formed markup carrying the same characters.",
 ['inputs'],"every Unicode string","Tests use plain ASCII samples.",
 ['BibleOrgSys/BibleOrgSysGlobals.py','BibleOrgSys/InputOutput/MLWriter.py'],[('escaping helpers','BibleOrgSysGlobals.py makeSafe*, MLWriter.checkText')])
p('N04','Checking reports exactly the structural faults a text has',
 "Checking a Bible reports missing, repeated and out-of-order chapters and verses, bad markers and unbalanced notes exactly where they occur, and nothing on a clean text.",
 ['inputs'],"every USFM text","Tests check that checking does not raise.",
 ['BibleOrgSys/Internals/InternalBibleBook.py'],[('check passes','Internals/InternalBibleBook.py check*')])
p('N05','Exports satisfy the published schemas of their formats',
 "Every OSIS, USX, USFX, Zefania and other XML export validates against its published schema.",
 ['inputs'],"every loaded Bible","Schema files and validators are external and absent.",
 ['BibleOrgSys/BibleWriter.py','ExternalSchemas'],[('writers','BibleWriter.py, InputOutput/MLWriter.py validate')])
p('N06','Lexicon, morphology and old-spelling conversions follow their tables',
 "Hebrew and Greek morphology and lexicon look-ups, and spelling conversions, give for each word what the tables define.",
 ['inputs'],"every word","Tests sample words.",
 ['BibleOrgSys/OriginalLanguages','BibleOrgSys/Reference/OldBiblicalEnglish.py','BibleOrgSys/Reference/EuropeanToEnglish.py'],[('tables','OriginalLanguages/*.py')])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
