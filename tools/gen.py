#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IB, FM, ST, UT, RP, RM, LG, CM = ("recovery/ibdata/parse.go", "recovery/ibdata/format.go", "recovery/ibdata/structure.go", "recovery/utils/utils.go",
    "recovery/redo/parse.go", "recovery/redo/mlog.go", "recovery/logs/logs.go", "cmd/db-recovery/command.go")
RTM = "runtime monitoring: "
P = []
def p(id, title, statement, over, text, why, files, mech, tech, note, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe), _tech=tech, _note=note))

FIX = "The existing tests call the parsers on fixture files that are not in the repository (they fail) or check addColumns alone: "
TRUST = "Trusts the harness's own InnoDB file writer and MySQL literal reader, written from the InnoDB format and not from this code; samples inputs, so it shows presence of violations, not their absence. "

p("C01", "PrintData prints exactly the rows in the record chains",
  "For a well-formed table file, PrintData prints one REPLACE statement for every user record linked in the record list of every clustered-index leaf page of the table: none missing, none twice, none invented, free-list records excluded. The statements come page by page in the order of the pages in the file and within a page in the order of the record list.",
  ["inputs"], "Every table file: any number of leaf pages in any position, any heap order, gaps, delete-marked and freed records, COMPACT and REDUNDANT rows, empty pages.",
  FIX + "no test ever compares printed rows with stored rows for any page shape.", [IB, FM],
  [("walk of the record list from infimum to supremum", IB+": parsePage"), ("page choice", IB+": ParseDataPage"), ("record offsets", IB+": ibRecInitOffsetsNew, ibRecInitOffsetsOld")],
  RTM+"trace-conformance monitor over printed statements against generated table files (exactly-once, order)", TRUST+"Rows are identified by a unique column; tables whose files are outside the documented scope (compressed or encrypted pages) are not generated.",
  ["stdout of recovery FromDataFile --OpType=PrintData"])
p("C02", "RecoveryData prints exactly the deleted rows on the free lists",
  "For a well-formed table file, RecoveryData prints one REPLACE statement for every purged record linked in the free list of every clustered-index leaf page (also of a page without live rows, and whether or not the record has the delete mark, which the old version of a moved row lacks), in free-list order page by page, and prints no live record.",
  ["inputs"], "Every table file and every free list: any length and order, fragmented heaps, pages whose rows are all deleted, pages without free list, both row formats.",
  FIX + "no test reads a free list.", [IB, FM],
  [("start at PAGE_FREE and follow next pointers to 0", IB+": parsePage"), ("filter on PAGE_FREE and PAGE_GARBAGE", IB+": ParseDataPage")],
  RTM+"trace-conformance monitor over printed statements against generated free lists", TRUST+"Free lists hold whole records; rows overwritten by reuse of their space are not generated.",
  ["stdout of recovery FromDataFile --OpType=RecoveryData"])
p("C03", "Only clustered-index leaf pages produce rows",
  "Both operations take rows from the leaf pages of the table's clustered index only: pages of secondary indexes, non-leaf pages, undo, BLOB, allocation, bitmap, zero and partial pages contribute no statement, whatever their bytes look like, and do not change what the leaf pages contribute.",
  ["inputs"], "Every mixture and order of page kinds in a table file, including pages whose payload imitates a clustered leaf and a trailing partial page.",
  FIX + "no test has a file with more than one kind of page.", [IB],
  [("page type, level and max-trx-id test", IB+": ParseDataPage"), ("page headers", IB+": parseFilHeader, parsePageHeader")],
  RTM+"differential monitor: foreign pages mixed into generated table files must not change the printed rows", TRUST,
  ["stdout of recovery FromDataFile"])
VAL = "both row formats, chain and free list"
p("C04", "Integer, ENUM, SET, BIT and YEAR values are printed exactly",
  "Every stored value of a TINYINT, SMALLINT, MEDIUMINT, INT or BIGINT column (signed or UNSIGNED), an ENUM or SET column (by number), a BIT(1..64) or a YEAR column is printed as a literal that MySQL reads as exactly that value (an ENUM or SET number not in quotes, where it would be the name of a member).",
  ["inputs"], "All values of all widths and signs, in every position of a row; "+VAL+".", FIX + "no test decodes an integer column.", [UT, IB, FM],
  [("sign bit and width", UT+": GetIntValue, GetUintValue"), ("type dispatch", UT+": ParseData"), ("literal", FM+": SQLValue")],
  RTM+"value monitor: printed literal re-read as MySQL does and compared with the stored value", TRUST, ["stdout of recovery FromDataFile"])
p("C05", "DATE, TIME, DATETIME and TIMESTAMP values are printed exactly",
  "Every stored DATE, TIME, DATETIME and TIMESTAMP value, with all its fractional digits, is printed as the literal of exactly that value, including zero dates, zero parts, negative times and the limits of each range; a TIMESTAMP is shown as local time of the process's time zone, the zero timestamp as '0000-00-00 00:00:00'. This holds for both storage formats, that of MySQL 5.6.4 and later and the numbers of older tables.",
  ["inputs", "configurations"], "All values of the MySQL 5.6+ formats, precisions 0 to 6, of the older formats, and every process time zone; "+VAL+".", FIX + "no test decodes a temporal column.", [UT, FM],
  [("decoders", UT+": ParseDate, ParseTime, ParseDateTime, ParseTimeStamp"), ("literal", FM+": SQLValue")],
  RTM+"value monitor under several time zones", TRUST+"Time zones: eight of the system database.", ["stdout of recovery FromDataFile"])
p("C06", "FLOAT and DOUBLE values survive a round trip",
  "Every finite FLOAT and DOUBLE value is printed as a numeric literal that, stored back into a column of the same type, gives the same bits.",
  ["inputs"], "All finite bit patterns, zero of both signs, subnormals and limits included; "+VAL+".", FIX + "no test decodes a float.", [UT, FM],
  [("bits", UT+": ParseFloat, ParseDouble"), ("literal", FM+": SQLValue")],
  RTM+"round-trip monitor on printed float literals", TRUST, ["stdout of recovery FromDataFile"])
p("C07", "Character and binary values are printed byte for byte",
  "Every CHAR, VARCHAR, TEXT, BINARY, VARBINARY, BLOB and GEOMETRY value stored in the record is printed as a literal that MySQL reads as exactly the same bytes, of every length up to the column's maximum and whatever bytes it holds (quotes, backslashes, NUL, line ends, non-ASCII); of CHAR only the padding spaces at the end are dropped.",
  ["inputs"], "All byte strings and lengths, one- and two-byte length forms, the collations of every character set (one-byte, multi-byte, UCS-2, UTF-16, UTF-32); "+VAL+".", FIX + "no test decodes a string.", [UT, IB, FM],
  [("length bytes", IB+": ibRecInitOffsetsNew, ibRecInitOffsetsOld"), ("escaping", UT+": EscapeValue"), ("hex of binary values", UT+": ParseBlob")],
  RTM+"value monitor: printed literal re-read as MySQL does and compared byte for byte", TRUST+"Text is compared as bytes: how a connection in a character set whose trail bytes may be a backslash (GBK, SJIS) reads them is out of scope.", ["stdout of recovery FromDataFile"])
p("C08", "NULL is printed exactly where NULL is stored",
  "For a column of a supported type, a value is printed as NULL if and only if the record stores SQL NULL: the empty string, zero values, zero dates and the text 'NULL' stay values, and a NULL never shifts or changes another column of the row.",
  ["inputs"], "All NULL patterns over up to 40 columns (any null-bitmap width), every column type, both row formats.", FIX + "no test has a NULL.", [IB, FM],
  [("null bitmap / end-offset flag", IB+": ibRecInitOffsetsNew, ibRecInitOffsetsOld, parseRecords"), ("literal", FM+": SQLValue")],
  RTM+"value monitor on NULL-ness of every printed value", TRUST, ["stdout of recovery FromDataFile"])
p("C09", "Every output line is one complete, well-formed SQL statement",
  "Every line on standard output of both recovery commands is exactly one complete statement, a REPLACE or UPDATE of the requested table, which MySQL's lexer reads as intended: no value or column name can end a literal early, span lines, add a statement or be mixed with diagnostics.",
  ["inputs"], "All stored values (quotes, escapes, newlines, SQL look-alikes, NUL and ^Z, which the mysql client does not pass through) and all legal column names, both commands.", FIX + "no test reads any printed statement.", [FM, UT, RP],
  [("escaping", UT+": EscapeValue"), ("statement builders", FM+": makeReplaceIntoStatement; "+RP+": makeSQL, quoteName")],
  RTM+"online grammar monitor (MySQL lexical rules) over every output line", TRUST+"Default sql_mode.", ["stdout of both recovery commands"])
p("C10", "Table definitions are resolved exactly from the data dictionary",
  "A table named by database and table name is read with exactly the columns, types and keys the dictionary in the system tablespace defines for it, whatever the number of tables, similar names, shape and page order of the dictionary's trees, stale or doublewrite copies, or other pages in the file.",
  ["inputs"], "All dictionaries: up to hundreds of tables, trees of one to three levels, shuffled pages and heaps, 5.6 and 5.7 layouts.", FIX + "the dictionary test needs a fixture that is absent.", [IB, ST],
  [("walk of the dictionary trees", IB+": getAllTables, getAllColumns, getAllIndexes, getAllFields"), ("lookup by name", IB+": getTableFromDict"), ("copies of a page", IB+": parseFile")],
  RTM+"model monitor: values read through generated dictionaries are compared with the model", TRUST+"Dropped, renamed and altered tables leave delete-marked rows and orphans in the generated trees; a dropped table whose definition is still complete stays readable.", ["stdout of both recovery commands"])
p("C11", "Each value is printed at its own column's place",
  "Whatever the primary or unique key (column prefixes included), the secondary indexes and the physical order of fields, each printed row lists the values in the order of the table's definition, each under its own column, and the hidden columns (DB_TRX_ID, DB_ROLL_PTR, DB_ROW_ID, and the FTS_DOC_ID which InnoDB adds for full-text indexes) are never printed. A virtual generated column, of which nothing is stored, gets DEFAULT at its place, the only value MySQL takes for it.",
  ["inputs"], "All tables: keys over any subset of columns in any order, promoted unique keys, tables without key, both row formats.", FIX + "TestAddColumns covers only the list helper.", [IB, FM, ST],
  [("key columns first, hidden columns", IB+": movePrimaryKeyFirst, addInternalColumns, sortColumns"), ("column order of the statement", FM+": makeReplaceIntoStatement")],
  RTM+"position monitor over printed rows of tables with random keys", TRUST+"Column-prefix primary keys are out of scope.", ["stdout of recovery FromDataFile"])
p("C12", "A request that cannot be served fails loudly and prints no SQL",
  "When a required option is missing, the operation (OpType) is unknown or not supported, an input file is absent, unreadable, empty, or not of the expected kind, when the table is not, or only partly, in the dictionary, when it is stored in a form that is not supported (ROW_FORMAT=COMPRESSED, page compression or encryption), or when the dictionary is unusable, the command prints no SQL, explains itself on standard error and exits non-zero. No content of the input files makes it crash or hang.",
  ["inputs", "fault_sequences"], "All combinations of missing, empty, truncated, garbage and misplaced files and names, for both commands.", FIX + "no test runs the command line.", [CM, IB, RP],
  [("error exit", CM+": exitWithError"), ("recovery from damage", IB+": ParseDictPage"), ("header checks", RP+": readRedoLogFileHeader")],
  RTM+"fault injection on inputs with an exit/stdout/stderr monitor", TRUST+"A damaged dictionary may still be usable: then only crash- and hang-freedom is demanded.", ["exit code, stdout and stderr of both recovery commands"])
p("C13", "Damage in a data page does not affect the rows of other pages",
  "Whatever the bytes of some pages of a table file are, the command ends without a crash or hang (normally, unless a page says it is compressed or encrypted: then it may report that and exit non-zero), every row of every undamaged leaf page is still printed exactly and in order, and on a page whose record list is broken the rows before the break are printed too; all output stays well-formed.",
  ["inputs", "fault_sequences"], "All damages of any set of pages: garbage, zeroed, torn, header fields, record pointers (loops, out of page), lengths.", FIX + "no test has a damaged page.", [IB],
  [("per-page recovery, cycle stop", IB+": parsePage"), ("offset checks", IB+": checkFieldSize, ibRecInitOffsetsNew, ibRecInitOffsetsOld")],
  RTM+"fault injection on pages with a conservation monitor over the rows of intact pages", TRUST+"A run over 20 s of CPU time counts as a hang.", ["stdout, exit code and CPU time of recovery FromDataFile"])
p("C14", "Each update in the redo log gives exactly one UPDATE, in log order",
  "From a well-formed redo log, each undo record of a row update on a table in the dictionary (with a key, within the given filter, and with at least one old value in the log) is turned into exactly one UPDATE statement, in log order; undo records of inserts, deletes and delete-mark updates, of unknown tables and of InnoDB's internal tables, and all other log records produce none.",
  ["histories"], "All sequences of log records: any mixture of tables, undo kinds and other records.", FIX + "TestParseRedoLogs needs an absent fixture.", [RP, RM],
  [("dispatch", RP+": parseRedoBlockData"), ("undo record", RM+": mlogUndoInsert"), ("table lookup", RM+": getTableByTableID")],
  RTM+"exactly-once and order checker over printed UPDATE statements against the generated log", TRUST, ["stdout of recovery FromRedoFile"])
p("C15", "UPDATE statements restore exactly the old values of exactly that row",
  "The UPDATE statement of an undo record names the record's table, sets exactly the columns the update had changed to exactly their old values (NULL included; only a column whose old value was stored outside the record, and so is not in the log, is left out; so are a hidden FTS_DOC_ID and virtual generated columns), and has a WHERE clause with exactly the clustered-key columns and the row's key values (of a column of which the key has only a prefix, that prefix, compared with as much of the column), such that MySQL finds the row, every column under its own name.",
  ["inputs"], "All tables (any key and column types), all subsets of non-key columns updated, all values.", FIX + "no test checks a printed UPDATE.", [RM, RP, UT],
  [("key and update vector", RM+": mlogUndoInsert"), ("column mapping", RM+": getColumnByPos, getPrimaryKey"), ("statement", RP+": makeSQL")],
  RTM+"value monitor over SET and WHERE of every printed UPDATE", TRUST+"Updates of key columns and tables without any unique key are out of scope.", ["stdout of recovery FromRedoFile"])
p("C16", "Every redo record type is framed exactly",
  "Log records of every MySQL 5.6/5.7 type, of any legal content and length, are skipped over exactly, so that what follows them in the log is read at its true place: no update behind any record is lost, misread or duplicated, and record contents are never taken for records.",
  ["histories"], "All sequences of records of all types with all legal field values, lengths and payload bytes.", FIX + "no test parses a log record.", [RM, RP, UT],
  [("record bodies", RM+": mlogNBytes, mlogRecInsert, mlogRecUpdateInPlace, mlogListDelete, mlogZip*"), ("space and page number", RP+": parseRedoBlockData, validateLogHeader"), ("compressed integers", UT+": MatchParseCompressed")],
  RTM+"sentinel monitor: updates placed between records of every type must all be printed", TRUST+"MariaDB and 8.0 record forms are out of scope.", ["stdout of recovery FromRedoFile"])
p("C17", "Block and file boundaries do not change what a redo log yields",
  "What is printed from a redo log depends only on the sequence of log bytes: the division into blocks (full or partly filled), the division into log files given in order, blocks never written, and the format of the file headers change nothing.",
  ["inputs"], "All layouts of a log over blocks and files, records and values cut at any byte by a boundary.", FIX + "no test reads a log of more than one block.", [RP],
  [("payload of blocks joined over files", RP+": ParseRedoLogs, readRedoBlockHeader")],
  RTM+"metamorphic monitor: one log in several layouts must give identical statements", TRUST+"Logs that wrapped around are C26.", ["stdout of recovery FromRedoFile"])
p("C18", "Database and table filters of the redo command are exact",
  "With --DBName and/or --TableName, the redo command prints exactly the statements it prints without a filter for tables whose database and table names equal the given ones, in the same order; similar names, swapped names and unknown names select nothing else.",
  ["inputs", "configurations"], "All sets of tables with equal, similar or swapped names, all filters.", FIX + "no test uses a filter.", [RP, RM],
  [("filter", RM+": mlogUndoInsert"), ("options", CM+": FromRedoFile")],
  RTM+"differential monitor of filtered against unfiltered output", TRUST, ["stdout of recovery FromRedoFile"])
p("C19", "A damaged or truncated redo log yields everything before the damage",
  "When a redo log is truncated or overwritten from some point on, the command does not crash or hang, and the statements of all updates logged before the damage (for a file cut off inside a block: before that block) are printed completely, exactly and first; truncation adds no statement, and every printed line stays well-formed.",
  ["inputs", "crash_points", "fault_sequences"], "All truncation points (inside a record, block, header, file) and all garbage.", FIX + "no test has a damaged log.", [RP, RM],
  [("recovery from out-of-range reads", RP+": parseRedoBlockData"), ("block checks", RP+": ParseRedoLogs")],
  RTM+"crash-point and corruption injection with a prefix monitor", TRUST+"A run over 20 s of CPU time counts as a hang.", ["stdout, exit code and CPU time of recovery FromRedoFile"])
p("C20", "Integer encodings of InnoDB are decoded exactly",
  "The exported decoders of InnoDB's integer encodings (fixed width 1 to 8 bytes, signed and unsigned, compressed, 64-bit compressed and much compressed) return the encoded value and consume exactly the encoded bytes, at any position and whatever follows; the size functions give the encoded length, and a value cut off by the end of the data is not decoded as another value. The routines that skip index descriptions and inserted records end exactly behind them.",
  ["inputs"], "All values of all widths and all positions in a buffer.", FIX + "no test calls a decoder.", [UT],
  [("decoders", UT+": MatchParseCompressed, MatchUllReadComPressed, MatchUllReadMuchCompressed, GetIntValue, GetUintValue, MatchReadFrom1..8"), ("skips", UT+": ParseIndex, ParseInsertRecord")],
  RTM+"in-process monitor of the exported codecs against independent encoders (exhaustive for up to 3 bytes)", "Trusts the encoders of the driver. 3-byte integers and compressed values below 2^17 are covered completely, the rest by boundaries and random values.", ["return values of the exported functions"])
p("C21", "Logging never affects the recovered SQL, and levels gate exactly",
  "Standard output and the exit code of a command are the same at every log level and log directory. A diagnostic message is logged if and only if its severity is at or above the chosen level (level names in any letter case; an unknown name means info), completely and once.",
  ["inputs", "configurations"], "All levels and spellings, all requests including damaged inputs.", "The logging tests call each function once at one level and check nothing.", [LG, CM],
  [("level gate", LG+": InitLogs, Trace..Fatalf"), ("output on stdout only by fmt", FM+"; "+RP+": makeSQL")],
  RTM+"metamorphic monitor over log levels, and an exact log-content monitor in process", TRUST, ["stdout, exit code, log files"])
p("C22", "Parsers are independent: no state is shared, in parallel or in sequence",
  "Several parsers used in one process, at the same time or one after another, each yield what they would yield alone, without a data race; one dictionary parser used for several data files yields for each what a fresh one yields.",
  ["schedules", "histories"], "All mixtures of jobs, interleavings and orders.", "No test uses two parsers.", [IB, RP, UT, LG],
  [("per-parser maps", IB+": NewParse; "+RP+": NewParse"), ("columns per record", IB+": parseRecords")],
  "sanitizer: Go race detector (with checkptr) on parallel parsers, plus a conservation monitor over the printed lines", TRUST+"Schedules are those the Go scheduler produces under GOMAXPROCS 2..16; the race detector reports any unordered pair it sees.", ["stdout and race reports of an in-process driver"])
p("C23", "The output depends only on the contents of the inputs",
  "Running the same request again gives byte-for-byte the same standard output and exit code, independent of scheduling, memory limits, locale, user, working directory, the names and times of the input files, and whether files and standard output are connected directly or through pipes that deliver in pieces; also for damaged inputs.",
  ["inputs", "configurations", "schedules"], "All requests and environments.", "No test runs anything twice.", [IB, RP, FM],
  [("ordering of map contents", IB+": sortColumns, getTableFromDict")],
  RTM+"repeat-and-compare monitor under varied environments", TRUST, ["stdout and exit code of both recovery commands"])
p("C24", "Inputs are never modified and nothing but log files is written",
  "A recovery command leaves every input file as it was (content, size, mode, times, links) and creates, changes or removes no file or directory other than its own log files in the log directory, also when it fails.",
  ["inputs", "configurations"], "All requests, including damaged and unservable ones.", "No test looks at the file system.", [IB, RP, CM, LG],
  [("files opened for reading only", IB+": parseFile; "+RP+": ParseRedoLogs"), ("log directory", LG+": InitLogs")],
  RTM+"file-system snapshot monitor around each run", TRUST+"Effects outside the input, working, home, temporary and log directories are not watched.", ["file system"])

p("C25", "Values stored outside the record are printed complete",
  "A value stored on pages of its own (in full, or with a prefix in the record) is printed exactly and complete, however long it is, over how many pages it goes and where they are in the file, and the other columns of the row are not affected. When it cannot be read back completely, the row is still printed, and the bytes of the reference are not printed as part of the value.",
  ["inputs"], "All lengths and page chains in any order, DYNAMIC and COMPACT storage, both row formats, chain and free list.", FIX + "no test has a value outside its record.", [IB],
  [("chain of pages", IB+": readExternal"), ("pages of the file", IB+": ParseDataPage"), ("reference in the record", IB+": parseRecords, ibRecInitOffsetsNew, ibRecInitOffsetsOld")],
  RTM+"value monitor over printed literals of off-page columns", TRUST+"Compressed BLOB pages are out of scope.", ["stdout of recovery FromDataFile"])
p("C26", "A redo log written over in a circle is read from its oldest record on",
  "From redo log files which were written over in a circle, any number of times, every update whose group of records is still whole in the log gives exactly its statement, in the order it was logged, whatever the position of the write point, the order of the files on the command line, or a file that is missing; what is left of a half overwritten group gives no invented update.",
  ["histories", "inputs"], "All positions of the write point, block fills, numbers of rounds (block number wrap included), file orders and gaps.", FIX + "no test has a log of more than one round.", [RP],
  [("runs of blocks in order of their numbers", RP+": ParseRedoLogs, addLogBlock, joinLogRuns"), ("start at the first record group", RP+": readRedoBlockHeader")],
  RTM+"exactly-once and order checker over printed UPDATE statements against the generated history", TRUST, ["stdout of recovery FromRedoFile"])
p("C27", "Failures of reading and writing are reported and never corrupt the output",
  "If a statement cannot be written to standard output, or an input file cannot be opened or read to its end, the command exits non-zero with a message on standard error. Whenever it ends, also when it is killed, what it has written is a beginning of what it prints undisturbed if it can serve the request (only off-page values whose pages could not be read may be shorter). An interrupted system call changes nothing.",
  ["crash_points", "inputs"], "Every request, every write and every read or open of an input as the failing one, and every moment to be killed at.", "No test runs the command or has a failing file.", [IB, FM, RP, CM, UT],
  [("writing of the statements", FM+": makeReplaceIntoStatement; "+RP+": makeSQL"), ("reading of pages and blocks", IB+": parseFile; "+RP+": ParseRedoLogs; "+UT+": ReadNextBytes"), ("exit code", CM+": exitWithError")],
  RTM+"fault injection into single system calls (strace), full and broken outputs, signals; prefix and exit-code monitor against the undisturbed run", "A fault is claimed only when the trace shows that it happened; without a working strace those faults are left out and counted as such. "+TRUST, ["stdout, stderr and exit code of both recovery commands"])
p("C28", "A damaged data dictionary still serves the tables it has whole",
  "When pages of the dictionary's B-trees in the system tablespace are lost, overwritten or have broken record lists (their roots and the dictionary header apart), every table all of whose definition is on undamaged leaf pages is served as if nothing had happened: its rows and all its updates are printed exactly. A table of which records of the definition are lost is either refused (no SQL, non-zero exit, a message) or read exactly, never by a partial definition. The command does not crash or hang.",
  ["inputs"], "All dictionaries, all sets of damaged pages and all damages to them.", "No test has a damaged dictionary.", [IB, ST, RP],
  [("pages of the dictionary tables", IB+": parseDictTablePage, getAllTables, getAllColumns, getAllIndexes, getAllFields"), ("completeness of a definition", ST+": isComplete; "+IB+": addInternalColumns"), ("updates of unknown tables", "recovery/redo/mlog.go: mlogUndoInsert")],
  RTM+"exact comparison of the rows and updates of undamaged tables, refusal monitor for the others", TRUST+"Junk that happens to spell a record of another table is not told apart.", ["stdout, stderr and exit code of both recovery commands"])

p("C29", "Tables are addressed by their names in SQL",
  "Whatever characters the names of databases and tables have that MySQL writes as @ and four hexadecimal digits in the data dictionary (punctuation, spaces, backticks, slashes, CJK and other scripts), tables are found and selected by their names in SQL, and every REPLACE and UPDATE names the table as MySQL knows it. A partition is asked for as t#P#p, and its statements name the table t; the redo filter by t selects all its partitions. Names that only look alike in either notation are never mixed up.",
  ["inputs", "configurations"], "All database and table names without letters of the scripts that the encoding has two-character codes for (accented Latin, Greek, Cyrillic, Armenian and a few more), all partition names.", FIX + "no test has such a name.", [IB, FM, RM, RP],
  [("decoding of names", FM+": decodeName, tableNames"), ("look-up", IB+": getTableColumnsFromDict, getTableFromDict"), ("filter", RM+": mlogUndoInsert"), ("statement builders", FM+": makeReplaceIntoStatement; "+RP+": makeSQL")],
  RTM+"monitor of the names in every printed statement and of the rows and updates selected, against an independent encoder of names", TRUST+"The two-character codes are not covered.", ["stdout of both recovery commands"])

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
        checks=[dict(property=q["id"], quick_cmd="VERIF_TIER=quick ./check.sh " + q["id"], thorough_cmd="VERIF_TIER=thorough ./check.sh " + q["id"],
            technique=q["_tech"], level="exploration", level_note=q["_note"].strip()) for q in P],
        not_applicable=[],
        notes="Black-box monitors around the real command-line tool built from /repo's working tree; C20..C22 also use an in-process driver that is laid into the build by a Go overlay. No hooks in /repo were needed.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
