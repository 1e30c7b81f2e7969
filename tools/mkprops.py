import json
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=False):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=x,where=files[0]) for x in state],mechanism=[dict(name=mech,where=', '.join(files))],observe_at=[obs],hook_needed=None)))
GX="src/gxfile.cpp"; GXH="src/gxfile.hpp"; GDX="src/gdx.hpp"; ST="src/gdlib/gmsstrm.cpp"; SH="src/gdlib/strhash.hpp"
p("C01","Operations are carried out only in the file state they belong to",
 "An operation that belongs to one phase of using a GDX object (opening, starting a symbol, writing or reading records, registering elements, defining a filter, slicing) is carried out only while the object is in that phase and returns failure in every other phase; it is not refused on account of the phase in those it belongs to. A successful operation leaves the object in exactly the phase the documented state diagrams prescribe for it.",
 ["histories"],"every public operation, called in every phase that any sequence of calls can reach",
 "The suite drives a few dozen legal call sequences; the product of ~100 operations and 18 phases is never enumerated and most out-of-order calls are never made.",
 [GX,GXH,GDX,"README.md"],["phase of the object","phase to return to after element registration"],"mode checks at the head of each operation, phase assignments on success","return value and phase after each public operation")
p("C02","No sequence of calls makes an operation use an absent or freed table",
 "Whatever sequence of public calls preceded it, successful or refused, on a closed, reading, writing or appending object, no public operation dereferences an internal table, stream, sort list, filter or current symbol that does not exist or has already been released.",
 ["histories"],"all finite sequences of public calls on one object, including calls on a closed object, refused calls and reopening",
 "Crashes of this kind need particular orders (query before open, start while a symbol is in progress, reopen after a failure); tests use each object once in the intended order.",
 [GX,GDX],["owned tables and stream of the object","current symbol, current filter, read cursor"],"existence guards, phase gating, resets on open, close and symbol start","any dereference inside a public operation")
p("C03","A refused or failed call leaves the session intact",
 "A call that is refused because the object is in the wrong phase never turns a closed object into an open one or a writing session into a reading one, and never discards the symbol being written. An open that fails leaves the object closed, with nothing of the rejected file visible, so that the next open starts clean.",
 ["histories","fault_sequences"],"every operation refused in every reachable phase, and every failing exit of every open operation",
 "Tests check that a refusal returns zero, not what the object can still do afterwards; failed opens are followed by disposal.",
 [GX],["phase and session kind","symbol in progress, its sort list and error list","tables loaded so far"],"order of mode check and state reset; clean-up on the failing exits of open","phase, session kind and tables after the refused or failed call")
p("C04","Closing a writing session always completes the file, index last",
 "From every phase of a session opened for writing or appending, closing writes the records still pending, then the symbol, text, element, acronym and domain tables, and only as the very last write the index, into the space reserved for it. In a newly created file the reserved space holds nothing a reader accepts until that moment, and a reader uses no table position before it has verified the index.",
 ["histories","crash_points"],"every phase in which a writing session can be closed; every point of interruption between open and the end of close",
 "Tests close only from the idle phase and never interrupt a write; an index written early or a phase in which close forgets to finish is invisible to them.",
 [GX],["reserved index area","positions of the tables"],"finalisation in close, placeholder in open for writing, marker check in open for reading","order of stream writes and seeks; marker checks before use of positions")
p("C05","A session opened for reading never changes the file",
 "Between opening a file for reading and closing it, no sequence of calls writes to, truncates, replaces or creates that file, and the file is opened with read access only. Only opening for writing truncates a file, and only opening for writing or append obtains write access to it.",
 ["histories"],"all call sequences on an object opened for reading",
 "No test compares the file before and after reading, and the sequences that could reach a write are the ones nobody calls.",
 [GX,ST,"src/rtl/p3utils.cpp"],["open mode of the stream"],"access flags chosen in open, phase gating of everything that writes","write calls reachable in reading sessions; flags of the system open call")
p("C06","Reader and writer agree on the layout of every table in the file",
 "Every item the library writes into the file header, the index and the symbol, text, element, acronym and domain tables is read back with the same type and width, at the same place, under the same condition and repetition, and into the same attribute it was taken from. Section markers and constants the reader expects are the ones the writer writes.",
 ["inputs"],"all contents of a file (any number of symbols, dimensions, comments, texts, labels, acronyms, relaxed domains)",
 "Round-trip tests use small files with few attributes set; a swapped or re-sized field that is zero or equal in those files goes unnoticed.",
 [GX,SH,ST],["header, index and table sections"],"parallel write and read sequences in close/open and the table save/load routines","sequence of typed stream operations on both sides")
p("C07","Reader and writer agree on the encoding of every data record",
 "For every dimension, key width, symbol type and value class, a data record is decoded from exactly the bytes it was encoded to: the change code, the keys relative to the stored minimum in the stored width, the value class byte and the optional number have the same range, order, width and meaning on both sides. No change code of a record coincides with the end-of-data mark.",
 ["inputs"],"all dimensions 0..20, key ranges, symbol types and value classes",
 "The code space (dimension x delta x width x class) is sampled at a few points; boundary codes are not exercised.",
 [GX,GXH],["last key, key minimum and width per dimension, data size"],"record encoder and decoder, width selection, delta limits","bytes emitted and consumed per record as a function of the encoder/decoder state")
p("C08","Numbers supplied by the caller are range-checked before they select anything",
 "A symbol, element, text, acronym, comment, error-record, filter or dimension number passed to any public operation selects an entry of an internal table or array only after it has been checked against both the lower and the upper bound valid for that table at that moment; otherwise the call reports failure.",
 ["inputs","histories"],"all integer arguments of all public operations, in every state of the tables",
 "Tests pass in-range numbers and the occasional zero; negative and just-past-the-end values per operation are not swept.",
 [GX,SH,"src/gdlib/gmsobj.hpp"],["table sizes"],"bound checks in public operations and table accessors","every subscript of a table or array derived from a caller-supplied number")
p("C09","Text never overruns the buffers it is copied into",
 "Whatever the length of labels, names, texts and messages, an operation writes at most the documented number of characters (64 for labels and names, 256 for texts, terminator included) into a buffer of the caller, and never writes or reads past an internal fixed-size buffer when it copies, trims or stores caller-supplied text.",
 ["inputs"],"all lengths and contents of strings passed in or returned",
 "Tests use short strings; an off-by-one at 63/64 or 255/256 needs exact lengths and a sanitizer.",
 [GX,"src/gdlib/utils.cpp","src/gdlib/utils.hpp",ST,SH],["caller buffers","fixed-size scratch buffers"],"bounded copy helpers and length guards","each copy of characters into a fixed-size or caller buffer")
p("C10","Special values keep their identity in every mapping",
 "Undefined, not-available, plus and minus infinity and epsilon are each mapped to the same slot by the operations that set, get, reset, query and apply the special values, for writing and for reading, and the two internal representations used for writing always describe the same values. A set of special values with duplicates is rejected without changing anything.",
 ["inputs","histories"],"all user-defined special value assignments and all sequences of operations on them",
 "Tests mostly use the default values, for which exchanging two custom slots or forgetting one representation changes nothing visible.",
 [GX,GXH,"generated/gclgms.h"],["write map, its bit-pattern copy, read map"],"slot assignments in the five special-value operations","slot to slot correspondence in each operation; stores to the paired maps")
p("C11","The C interface passes every call through unaltered",
 "Each function exported by the library, each entry of the C loader and each method of the C++ convenience wrapper calls exactly the operation of the same name with its arguments in the same order, nothing added or dropped, and returns its result. The loader binds each function pointer to the symbol of the same name, and the signatures the two sides exchange for compatibility agree with the actual parameter lists.",
 ["programs"],"all functions of the C/C++ interface",
 "Only part of the interface is called through each layer by tests; argument swaps of equal type and wrong bindings in untested functions are invisible.",
 ["generated/gdxcclib.cpp","generated/gdxcwrap.h","generated/gdxcppwrap.hpp","generated/gdxcc.c","generated/gdxcc.h"],["function pointer table of the loader"],"generated forwarding functions, signature tables","call inside each forwarding function; pointer/name pairs in the loader")
p("C12","GDX objects are independent of each other",
 "What an operation on one GDX object does or returns depends only on that object, its arguments and its file, never on operations performed, earlier or concurrently in another thread, on a different object: public operations keep no modifiable state outside the object.",
 ["schedules","histories"],"all interleavings of operations on distinct objects in any number of threads",
 "Tests are single-threaded and use one object at a time; a shared scratch buffer is invisible.",
 [GX,ST,SH,"src/gdlib/utils.cpp"],["objects with static storage duration"],"absence of mutable static storage on the call graph of public operations","stores to static storage reachable from public operations")
p("C13","Every refusal is reported with a distinct, described error",
 "An operation called outside the phases it belongs to, a writing, registering, aliasing, domain, comment, filter or acronym operation that rejects its arguments, and an operation that starts reading a symbol given an invalid symbol number all record an error: the last-error query returns it (unless an earlier one is pending) and both error counters count it. An open operation that fails sets ErrNr. All error codes are distinct and every reported code has its own message text.",
 ["histories","inputs"],"all rejecting exits of the operations that validate their arguments or phase",
 "Tests look at return values of a few failing calls and at a handful of messages.",
 [GX],["last error, error counters","message table"],"error reporting helpers and the message table","each rejecting exit; each entry of the message table")
p("C14","I/O failures are recorded, kept and surfaced",
 "The result of every system-level open, read, write, seek and close on a GDX file is recorded; once a failure has been recorded it is kept until it is queried, is not overwritten by later successes, and a write that stores fewer bytes than it was given counts as a failure. Opening a file returns the failure of the open call, and gdxClose returns any failure recorded during the session that was not queried before, including that of writing the last bytes and of closing the file.",
 ["fault_sequences"],"every failing I/O call at any position in any sequence of operations",
 "Tests never inject I/O faults; the disk is never full.",
 [ST,"src/rtl/p3utils.cpp",GX],["last I/O result of the stream"],"result propagation through the stream layers","each system call result; each store to the recorded result")
p("C15","Only sorted, unique, domain-conforming records reach the file",
 "A record whose keys are not strictly greater than those of the preceding record of the symbol, or that violates a domain given for a dimension, is never written into the file: the operation reports the error and leaves the encoder state untouched. The record count stored for a symbol counts exactly the records written.",
 ["inputs"],"all record sequences and domain declarations",
 "Tests write a few unsorted or violating records in low dimensions; checks that are skipped for some dimension, mode or record position are not reached.",
 [GX],["last key written, record counter, domain bit maps"],"gates in the record writer","every path to a stream write of a record")
p("C16","Invalid names, labels and texts never enter a table",
 "A symbol name enters the symbol table only if it is a legal identifier of at most 63 characters and not yet used by a symbol or acronym; an element label only if it is at most 63 characters without control characters or mixed quotes, and with trailing blanks removed. Explanatory and set texts are cut to 255 characters and cleaned of control characters and mixed quotes before they are stored.",
 ["inputs"],"all strings passed to any operation that stores a name, label or text",
 "Tests try a few bad strings on a few entry points; each of the many entry points and the length and character boundaries are not swept.",
 [GX,SH],["symbol, element, text tables"],"validation helpers on the way into the tables","every insertion into a table reachable from a caller-supplied string")
p("C17","Name lookup ignores letter case consistently",
 "Two names that differ only in the case of letters are found as the same entry in the symbol, element, acronym and domain tables, regardless of how many entries the table holds and in which order they were added, while texts are distinguished by case. Hashing and comparison used by one table treat every character alike.",
 ["inputs"],"all strings and table contents",
 "Lookups in tests involve few names, mostly in one spelling; a mismatch between hash and comparison shows only for some characters.",
 [SH,"src/gdlib/utils.cpp","src/gdlib/utils.hpp"],["hash buckets"],"hash function and entry comparison of the string tables","per-character folding in hash and comparison of each table class")
p("C18","Files are readable independently of the byte order they were written in",
 "Every multi-byte number read from a file passes through the byte-order correction for exactly its width, the correction is selected for each width from the pattern stored for that width at the start of the file, and every file written starts with these patterns. No multi-byte number is read or written around this mechanism.",
 ["configurations","inputs"],"all files of either byte order and all numbers in them",
 "All test files are little-endian; the correcting branches never run.",
 [ST,GX],["byte order flags per width"],"stream preamble and correcting read routines","every multi-byte read or write; the per-width flags")
p("C19","Cached facts are dropped when what they were derived from changes",
 "Whenever labels, user numbers or records are added, replaced, renamed or re-ordered, everything derived from the previous contents (sort orders, hash chains, sortedness of the user numbering, cursor positions) is recomputed before it is used again, so no query is answered from a stale derivation.",
 ["histories"],"all interleavings of modifications and queries of the element, name and record tables",
 "A stale cache needs query-modify-query on the same table; tests query once after building.",
 [SH,GX,"src/gdlib/datastorage.hpp","src/gdlib/gmsdata.hpp"],["sorted flags, hash table, user map status"],"invalidation at each modification","stores to the underlying data and to the cache flags on every path")
p("C20","User numbers and element numbers stay inverse to each other",
 "Whenever an element is given a user number, both directions of the mapping are recorded together, an element never gets a second user number by the operations that assign new ones, and a number already taken by another label is rejected with an error.",
 ["histories","inputs"],"all sequences of registrations, mapped reads and renames",
 "Tests register a few labels in order and read them back; conflicting or repeated assignments in unusual order are not swept.",
 [GX],["user number per element","element per user number"],"paired updates in the element table","every store to either direction of the mapping")
p("C21","Everything allocated for a session is released exactly once",
 "Closing an object, destroying it, or failing to open a file releases every symbol record, filter, acronym, comment, buffer and file handle obtained for the session, each exactly once and with the deallocation matching its allocation; no later operation uses released storage.",
 ["histories","fault_sequences"],"all exits of open, close and destruction, all tables",
 "Leaks and double releases do not fail the tests; the error exits that leak are not reached.",
 [GX,SH,ST,"src/gdlib/gmsobj.hpp","src/gdlib/datastorage.hpp","src/gdlib/gmsdata.hpp"],["owned raw pointers and buffers"],"destructors, clear routines, clean-up on failing exits","allocation and release sites per owner")
p("C22","Public C constants and types agree with the core",
 "The limits, type codes, variable and equation type codes, value positions, special-value indices and default records that the public C header publishes are the ones the library uses: sizes of record and key arrays, enumerations and tables on both sides coincide in value and order.",
 ["programs"],"all constants and tables of the public header",
 "Tests use the constants symbolically on both sides, so a disagreement cancels out or concerns values no test uses.",
 ["generated/gclgms.h",GXH,GX],["constant tables"],"compile-time constants","value of each constant as seen by the compiler")
p("C23","Results depend on nothing but calls, file and two documented variables",
 "Apart from the file itself, the arguments and the two documented environment variables that select compression and conversion on close, no public operation consults the environment, clock, random numbers, host or other files, and the only external program ever started is the documented converter, only on close of a written file when conversion is enabled and requested.",
 ["configurations","histories"],"all environments and call sequences",
 "Tests run in one environment with these variables unset.",
 [GX,ST,"src/rtl/p3utils.cpp"],["none"],"call graph from public operations","calls to environment, clock, process and file functions reachable from public operations")
p("C24","A malformed file cannot make the library access memory out of bounds",
 "Counts, dimensions, symbol numbers, element numbers, lengths and value codes read from a file are compared with their valid range before they are used as a subscript, a copy length or an allocation-sized loop bound; a file that fails such a check is rejected or the record is reported as bad.",
 ["inputs"],"all byte sequences presented as a GDX file",
 "Tests only read files the library wrote itself.",
 [GX,ST,SH],["values read from the file"],"range checks after typed reads","every use of a value read from a file as index or length")
p("C25","Stream buffers and positions stay coherent",
 "Switching between reading and writing, changing the position, switching compression and closing never lose buffered bytes: pending output is flushed first and stale input is discarded. Data is copied into a stream buffer only within its capacity, and the length header of a compressed block is composed and decomposed the same way, in a range its field can hold.",
 ["histories","inputs"],"all sequences of read, write, seek, compression switch and close on a stream, for all block sizes",
 "The streams are exercised by a few linear sequences with small data that rarely cross a buffer boundary.",
 [ST,"src/gdlib/gmsstrm.hpp"],["buffer fill level, buffer position, compression flag"],"flush calls, capacity comparisons, block header code","flush before each seek or mode change; bounds at each buffer copy")
p("C26","Mapped and filtered reads deliver only accepted elements",
 "When reading with user numbers or filters, a record is delivered only if every key was accepted by the action chosen for its dimension (unmapped, mapped, filtered, or newly numbered); every other record goes to the error list, with the offending keys marked, and is not delivered. A key that is delivered is the element or user number the action yields for it. This holds alike for the direct and the sorted reading path.",
 ["inputs"],"all symbols, filters and user numberings",
 "Tests cover a few one- and two-dimensional filters; the two reading paths and all action combinations are not compared.",
 [GX],["action and filter per dimension"],"per-dimension acceptance in the two mapped reading paths","every path that delivers or stores a record")
p("C27","Numbers and labels survive a write-read round trip bit for bit",
 "Every finite number, key and text written through any writing mode is read back unchanged through any reading mode, for any data volume and with or without compression.",
 ["inputs","configurations"],"all data sets, writing and reading modes and compression settings",
 "Only small sample data sets are written and read back.",
 [GX,ST],["file contents"],"whole write and read path","values returned by the reading operations")
p("C28","Records are delivered in ascending key order with none lost",
 "For any set of records added in any order in mapped or string mode, the file contains each distinct key once, in ascending order of element numbers.",
 ["inputs"],"all multisets of records",
 "Tests insert few records, mostly presorted.",
 ["src/gdlib/datastorage.hpp",GX],["linked record list"],"bucket sort of the record list","order of records handed to the encoder")
p("C29","Every operation terminates on every file",
 "Opening or reading any file, including one with cyclic alias chains or absurd counts, ends after a bounded number of steps.",
 ["inputs"],"all byte sequences presented as a GDX file",
 "Tests only read files the library wrote itself.",
 [GX],["alias chain, counts read from file"],"loops driven by file contents","loop exits")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
