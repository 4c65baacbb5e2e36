"""What each check runs: scenario:variant:weight of the simulator, and how much of it."""
REAL = ["all of lube/*.cpp from /repo's working tree (value core, views, streams, strings, JSON, functors), compiled with AddressSanitizer",
        "libstdc++"]
STUB = ["operator new/delete failures (operator new is intercepted; memory itself is real)"]
IOREAL = REAL + ["the library's modules as loadable objects"]
IOSTUB = STUB + ["the operating system at the libc boundary: files, directories, pipes, child processes, clocks, dynamic loader and stack walker are simulated"]

HIST = ("A plan is a history of operations by several actors on a shared population of handles, values drawn over all types; "
        "after every operation every handle is compared with a reference model kept next to it. ")

# Every part of the library whose runs can share a process
ALLMODS = ("strings:%s:2,stream:%s:1,json:%s:2,text:%s:1,xml:%s:1,ged:%s:1,snd:%s:1,save:%s:1,gnuplot:%s:1,module:%s:1,error:%s:1,handles:%s:1,path:%s:1,math:%s:2,make:%s:1")

CHECKS = {
    "C01": dict(scen="values:alias:4,views:all:1,strings:all:1", count=50000, rule=HIST + "Mix: sharing, copying, re-assigning, growing, comparing."),
    "C02": dict(scen="values:release:12,views:all:3," + ALLMODS % (("all",) * 15), count=60000, secs=35,
                classes="leak|crash.*|mismatched-release|not-released|instance-leak|parser-leak|runaway-blocks|terminate", rule=HIST + "After every operation the allocator's live blocks are compared with what the model says is reachable; at the end with zero."),
    "C03": dict(scen="values:oom:14,views:oom:4," + ALLMODS % (("oom",) * 15), count=50000, secs=35, needs="oom", rule=HIST + "One operation in three has an allocation failure placed at its n-th allocation (single, burst or until healed)."),
    "C04": dict(scen="values:seq:1", count=60000, rule=HIST + "Mix: edits of one sequence of a chosen element type."),
    "C06": dict(scen="views:all:1", count=60000, rule=HIST + "Mix: views, sub-views and moved views of one or more arrays of every numeric type, valid and invalid shapes and offsets, reads, writes, whole-view assignments and in-place arithmetic."),
    "C05": dict(scen="values:map:1", count=60000, rule=HIST + "Mix: stores, lookups and removals in maps with keys of mixed types."),
    "C07": dict(scen="stream:all:1", count=250000, rule="A plan interleaves writes, reads of every kind, peeks, put-backs, seeks and clears on several streams over shared strings with "
                "edits of the strings themselves; what each call returns, the stream state, the position and the contents are compared with a reference stream; allocation failures are placed inside writes.",
                measure="hash of the contents, positions and states of all streams and strings after a step"),
    "C08": dict(scen="json:all:1", count=80000, rule="A plan writes one or more values (by the library, or by an independent writer), re-spaces the text, and reads it back through a string stream, "
                "a fragmented source or a simulated file; then the text is cut, damaged, its source fails, or allocations fail. What is read, what is left unread and the target are compared with the values written; "
                "what damaged text yields must survive its own text form. The text of values that cannot be read back (complex numbers, views) is compared with an independent writer, white space aside.",
                measure="hash of the text, the value reached in it and the outcome of reading it"),
    "C09": dict(scen="text:all:1", count=60000, real=IOREAL, stub=IOSTUB,
                rule="A plan makes a text (all byte values, line lengths around every buffer boundary, with and without final newline), reads it line by line from a fragmented stream or with the text reader from the "
                "simulated disk, with interrupted, short, delayed and failing reads, failing opens and allocations, and reads it again once the disk is healthy. Every line is compared with the text.",
                measure="hash of the text and the outcome of each load"),
    "C10": dict(scen="save:all:1", count=25000, real=IOREAL + ["libsndfile", "Boost graph"], stub=IOSTUB,
                rule="A plan makes a text, a set of ini entries, an element tree, a graph or a signal, saves it once on a healthy disk (checked by an independent reader of the format), then several times onto a file that may "
                "exist already, with failing opens, writes and closes, interrupted and short writes, little space left or failing allocations, and at last on a healthy disk; a save that returns must have left exactly the healthy document, "
                "a call that failed must raise, the value must be as it was, and text and ini files read back.",
                measure="hash of the document and the outcome of each save"),
    "C11": dict(scen="xml:all:1", count=25000, real=IOREAL + ["libexpat"], stub=IOSTUB,
                rule="A plan makes a document (an element tree in a generated layout) or has the library save a tree; the file is then cut or damaged, delivered in pieces, its reads fail, the parser's or the library's allocations fail. "
                "What is loaded is compared with the tree as an independent reading of the same bytes gives it; whatever that reading refuses must be refused; parsers made and freed are counted.",
                measure="hash of the document and the outcome of loading it"),
    "C12": dict(scen="config:all:1", count=9000, real=IOREAL, stub=IOSTUB,
                rule="A plan is a history of loads of generated ini files, explicit settings and lookups by several configuration objects, with failing opens and reads and malformed files; every known entry is compared with a reference map after every step. "
                "Each run has a process of its own because the settings are global.",
                measure="hash of all settings after a step"),
    "C13": dict(scen="ged:all:1", count=40000, real=IOREAL, stub=IOSTUB,
                rule="A plan makes a genealogy of supported records in either order, lays it out with unknown and nested records, cuts it at any byte, and delivers it in pieces with failing opens and reads; what is loaded is compared with the genealogy, "
                "and a second file is loaded by the same object afterwards.",
                measure="hash of the file and the outcome of loading it"),
    "C14": dict(scen="snd:all:1", count=60000, real=IOREAL + ["libsndfile"], stub=IOSTUB,
                rule="A plan makes a signal, has it saved by the library (onto a disk that may be full or fail) or by an independent writer in one of seven sample formats, checks the bytes saved with an independent reader, then cuts, damages or fragments the file, fails "
                "its reads, seeks and status calls, and compares every sample, the shape and the rate of what is loaded.",
                measure="hash of the file and the outcome of loading it",
                assumes=["samples lie within -1..1", "a read error that persists for ever is left out: it keeps the header parser of libsndfile itself busy"]),
    "C15": dict(scen="path:all:1", count=60000, real=IOREAL + ["std::filesystem"], stub=IOSTUB,
                rule="A plan makes a tree of files and directories with names of all bytes, and lists it flat, recursively and nested through absolute, relative and current paths, each time in another delivery order, with or without entry types, with "
                "failing opens, reads and status calls, and with entries removed or made by someone else at a chosen call of the listing. Entries, parts and order are compared with the tree; entries that came or went meanwhile may be in or out.",
                measure="hash of each listing", assumes=["no symbolic links", "no failing allocations: libstdc++'s directory iterator ends the program on them"]),
    "C16": dict(scen="curl:all:1", count=4000, real=IOREAL + ["libcurl"], stub=IOSTUB + ["the network and the server (sockets, polling and time are simulated)"],
                rule="A plan is a series of transfers by one or more objects from a simulated HTTP server: bodies of all bytes with a length, in chunks or until the connection closes, delivered in pieces with delays, cut at any byte, reset or refused, "
                "with failing socket calls, failing allocations in the library and in libcurl, and handles that cannot be made. What is returned is compared with the body served; handles and memory of libcurl and open sockets are counted.",
                measure="hash of the response delivered and the outcome of the transfer",
                assumes=["a body that ends where its connection ends cannot be told from a truncated one", "servers do not stall for ever (the module sets no time limit)"]),
    "C17": dict(scen="gnuplot:all:1", count=20000, real=IOREAL, stub=IOSTUB,
                rule="A plan starts plotting programs through one or two modules and writes commands, vectors, matrices and bad data to them; programs fail to start or stop reading at any byte, pipe writes fail, are interrupted, short or in fragments, allocations fail. "
                "After each write what the simulated program has received is read as the program would and compared with what was given.",
                measure="hash of what arrived and the outcome of the write", assumes=["the process ignores SIGPIPE, so that writing to a program that is gone is an error"]),
    "C18": dict(scen="module:all:1", count=50000, real=IOREAL, stub=IOSTUB + ["libraries that lack a factory or whose factory fails as told (other modules are the real ones)"],
                rule="A plan is a history of loading, creating, using and dropping modules of every kind, real and simulated, with failing opens and symbol lookups, factories that fail in every way, instances of the wrong type, failing allocations, "
                "and errors kept beyond the library that raised them. Loader calls and instance destructions are compared with the history.",
                measure="hash of the slots, instances and the operation"),
    "C19": dict(scen="error:all:1", count=35000, stub=STUB + ["the stack walker (backtrace, backtrace_symbols and __cxa_demangle are simulated)"],
                rule="A plan makes errors, directly and by provoking the library, under generated call stacks (missing, empty, unnamed, undecodable, oddly formed, very long, none, or the real one), with failing demangling and allocations; "
                "errors are then copied, assigned, thrown again, caught in several ways and dropped in any order. After every step each living error must say exactly what it said first, which begins with what it was made with; allocated blocks are counted.",
                measure="hash of each message"),
    "C20": dict(scen="handles:all:1", count=9000, real=IOREAL + ["libsndfile", "libexpat", "libcurl", "Boost graph", "std::filesystem"], stub=IOSTUB + ["the network and the server"],
                rule="A plan repeats reading, writing, listing, transferring and plotting by any module up to forty times with the same failure: the n-th call of the operating system of any kind, of one kind, or the n-th allocation fails, the disk is full, "
                "files are damaged. After every single operation the tables of descriptors, streams, directories, programs and libraries are compared with the modules that live; afterwards everything must work again.",
                measure="hash of the operation, its outcome and the calls made so far", assumes=["directory listings get no failing allocations: libstdc++'s directory iterator ends the program on them"]),
    "C21": dict(scen="threads:all:1", count=6000, secs=60, per=1, engine="thr", real=["all of lube/*.cpp and the modules (except curl) from /repo's working tree, compiled with the instrumentation of -fsanitize=thread, whose run-time is the simulator's", "libstdc++", "MKL, libexpat and libsndfile (not instrumented: their own accesses are not checked)"],
                stub=["the scheduler of threads: exactly one thread runs at a time and is switched only at planned accesses", "locks, once-guards and atomic operations", "operator new and delete", "the operating system at the libc boundary: files, pipes, child processes, dynamic loader"],
                rule="A plan gives two to four threads programs of one to four operations each out of 24 (values, maps, sorting, casts, strings, regular expressions, arithmetic, linear algebra, DFT, views, errors, streams, JSON, lines, ranges, XML, ini, text, "
                "GEDCOM and sound files, listings, graphs, plots, modules) and a schedule: switches after chosen numbers of accesses, or at fixed distances, or both; some operations have failing allocations. The same programs run one after the other in a process of their own; "
                "outcomes, what plotting programs received and memory left behind must be the same; every access to memory that the library allocated and to its static data must be ordered (vector clocks over the library's synchronisation) after conflicting ones of other threads, and lie in live memory; "
                "uses of C library functions with hidden state count as accesses.",
                measure="pairs of the code location where one thread was stopped and the code location where the next one went on (first 1000 switches of each run)",
                assumes=["configuration objects are left out: their settings are shared by design", "no transfers (libcurl) and timers in threads", "no allocation failures in listings"]),
    "C22": dict(scen="timer:all:1", count=100000, stub=STUB + ["the clocks"],
                rule="A plan starts and ends timers, interleaved and nested on the stack (left in order or by an exception), with time passing by nanoseconds to months and wall clock jumps in both directions in between; what each timer prints is compared with the time simulated.",
                measure="hash of the line printed and the number of timers"),
    "C23": dict(scen="strings:all:3,strings:oom:1", count=40000, real=REAL + ["Boost regex"],
                rule="A plan is a history of making, sharing, copying and editing strings, arrays and maps of strings held by five handles, and of string operations on them: into a new value, in place, into another handle, or on an element in place; "
                "a third of the operations may have failing allocations and are repeated with memory. After each step contents and sharing of all handles are compared with a reference model, regular expressions with std::regex.",
                assumes=["strings without NUL bytes; regular expressions on printable text and of a common subset of the Boost and standard syntaxes"]),
    "C24": dict(scen="options:all:1", count=30000, real=["lube/config.cpp and the rest of lube from /repo's working tree, compiled with AddressSanitizer", "getopt of the C library"],
                stub=["operator new/delete failures", "the end of the program (exit is intercepted)"],
                rule="A plan makes option objects one after another in one process, declared or with an option string, and parses generated command lines with them (clusters, repetitions, attached, separate and missing arguments, unknown options, "
                "dashes, any bytes), some left half-read, some with failing allocations. Options, arguments, what remains, the usage shown and whether the program is ended are compared with an independent parser.",
                measure="hash of the command line, its options and how far it was read"),
    "C25": dict(scen="math:arith:3,math:oom:1", count=160000, real=REAL + ["the system's BLAS/LAPACK/FFT library (MKL interface), uninstrumented"],
                rule="A plan keeps numbers, lists, maps, arrays and views of every numeric type, some sharing storage, and applies arithmetic operators, their in-place forms and mathematical functions to them, with results returned or written to a given output, "
                "operands taken from the very arrays that change, operands that do not fit, and allocations failing inside. Results, operands and everything else alive are compared after each step with the scalar function computed by the harness in higher precision.",
                assumes=["float results to 3e-5, double to 1e-10, relative to the magnitude of the terms", "no integer overflow or division by zero; outputs do not partially overlap operands"]),
    "C26": dict(scen="math:linalg:3,math:oom:1", count=160000, real=REAL + ["the system's BLAS/LAPACK/FFT library (MKL interface), uninstrumented"],
                rule="A plan keeps arrays and views of every numeric type and of shapes that fit together, and some that do not, and applies products, reductions, transposition, sorting, concatenation, swapping, polynomials, roots and transforms of fitting and other sizes, "
                "with allocations failing inside. Results are compared with the textbook definition computed by the harness, transforms also with the input after going both ways, and operands and everything else alive for being unchanged.",
                assumes=["float results to 3e-5, double to 1e-10, relative to the magnitude of the terms", "roots are judged up to degree 8, by the polynomial they are roots of"]),
    "C27": dict(scen="make:all:3,make:oom:1", count=120000,
                rule="A plan makes values in every way there is (numbers, characters, texts with and without length, C arrays, lists, repetitions, shaped arrays and views, ranges, copies of shape and type, casts by value, in place and element by element) out of literals, "
                "other handles and elements of shared lists and arrays; a third of the operations may have failing allocations and are repeated with memory. After each step the new value, its type and shape, and contents and sharing of all handles are compared with a reference model.",
                assumes=["casts stay within the range of the target type; strings cast to numbers are decimal", "what views and allocations hold before they are written is not judged"]),
}
LEVEL_NOTE = ("Seeded sampling of histories, schedules and fault placements; a clean batch is evidence, not proof. Trusts the reference model, "
              "the simulated operating system and AddressSanitizer.")
