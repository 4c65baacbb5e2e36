#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Handles sharing one value always agree; copies are independent",
 "A value assigned or passed around is one shared array: every handle on it, however it was obtained (assignment, element of another array, entry of a map), observes exactly the changes made through any other handle, in the order they were made, and no handle observes a change made to different storage. An explicit copy shares nothing at its top level with its original from the moment it is taken, and re-assigning or clearing one handle never alters what the other handles see. Equality, ordering and identity tests on any two handles, including undefined and empty ones, answer from these contents.",
 ["histories", "schedules"],
 "All interleavings of operations by several actors that hold handles on a shared population of scalars, strings, typed arrays, nested arrays and maps.",
 "The tests perform one straight-line sequence on a handful of values; aliasing bugs need particular histories (copy, then grow past capacity, then write through the other handle).",
 ["lube/var.cpp", "lube/heap.cpp", "lube/var.h"],
 [("reference counted heap with attach/detach", "lube/heap.cpp: Heap::attach, Heap::detach"),
  ("copy assignment and in-place dereference", "lube/var.cpp: var::operator =, var::dereference"),
  ("shallow copy", "lube/var.cpp: var::copy, lube/heap.cpp: Heap::copy")],
 ["element reads, size(), type, is(), ==, < through every handle after every operation"])

prop("C02", "All storage is released exactly once, on normal and on error paths",
 "Once the last handle to a value is gone all of its storage has been given back, exactly once, and nothing is read or written after it was released; this also holds when operations end in an exception. Values dropped while the program runs (popped, removed, overwritten, cleared, cut off by shrinking) are released then, not only when the container that held them dies.",
 ["histories", "fault_sequences"],
 "All histories of value, string, stream, regular expression and arithmetic operations, including operations refused with an exception, ended by dropping the handles in any order.",
 "The tests never look at the allocator; a leak or a read of released memory on a rare path leaves their text output unchanged.",
 ["lube/var.cpp", "lube/heap.cpp", "lube/view.cpp", "lube/string.cpp", "lube/stream.cpp", "lube/func.cpp"],
 [("reference counting", "lube/heap.cpp: Heap::attach, Heap::detach, Heap::dealloc"),
  ("placement construction in shift/unshift", "lube/heap.cpp: Heap::shift, Heap::unshift"),
  ("view lifetime", "lube/view.cpp: View constructors and destructor")],
 ["allocator balance at the end of each history and at reclaim probes inside it; accesses checked by an instrumented build"])

prop("C03", "A failed allocation surfaces as an exception and corrupts nothing",
 "When memory runs out in the middle of any operation, the operation raises an exception and every value other than the one being changed is exactly as it was. The value being changed stays usable: it can be read, compared, modified and destroyed, what it held before the operation is still there in order unless the operation was to overwrite it, and nothing leaks or is released twice. Once memory is available again the same operation succeeds.",
 ["fault_sequences", "histories"],
 "Every allocation of every operation in generated histories may be the one that fails, singly, in bursts or for good until memory is released.",
 "The tests never see an allocation fail.",
 ["lube/heap.cpp", "lube/var.cpp", "lube/view.cpp", "lube/stream.cpp", "lube/string.cpp"],
 [("resize: allocate, copy, release", "lube/heap.cpp: Heap::resize, Heap::alloc"),
  ("scalar to array promotion", "lube/var.cpp: var::array, var::resize"),
  ("constructors that own storage", "lube/heap.cpp: Heap(...), lube/view.cpp: View(...)")],
 ["operator new fails at a planned allocation; all handles observed afterwards, allocator balance at the end"])

prop("C04", "Arrays behave as sequences under any history of edits",
 "An array of any element type (character, integer, long, float, double, complex, or arbitrary values) behaves as a sequence: push, append, insert, remove, pop, shift, unshift, shrinking, indexed assignment, search and sort give the same elements in the same order as the same edits on a plain list, whatever the sizes passed through on the way. An operation that takes elements out returns the value the element had and that value no longer changes with the array. An index outside the array, or taking from an empty array, is refused with an exception and changes nothing.",
 ["histories", "schedules"],
 "All edit histories, of any length and any mix of element types, by several actors sharing arrays, with the allocator handing out memory full of arbitrary bytes.",
 "The tests use each editing call once or twice on arrays of a few elements, so growth boundaries, reuse of slots after shrinking and mixed histories are never met.",
 ["lube/var.cpp", "lube/heap.cpp"],
 [("growth in powers of two", "lube/heap.cpp: allocSize, Heap::resize"),
  ("element moves", "lube/heap.cpp: Heap::shift, Heap::unshift; lube/var.cpp: var::insert, var::remove"),
  ("search and sort", "lube/var.cpp: var::binary, var::index, var::sort")],
 ["every element, type and size after every edit; every returned value at once and again later"])

prop("C05", "Maps keep one value per key in key order whatever the insertion order",
 "A map holds exactly one entry per distinct key, whatever the key types (numbers of any type, strings, arrays) and the order of insertions, overwrites and removals; looking a key up gives the last value stored under it, and an absent key is reported absent without being created by a read-only lookup. Iteration by position visits the entries in strictly increasing key order, with each key next to its own value.",
 ["histories", "schedules"],
 "All histories of stores, overwrites, nested stores, lookups and removals by several actors in any interleaving, over a mixture of key types.",
 "The tests build one or two small maps with string keys in a single order.",
 ["lube/var.cpp", "lube/heap.cpp"],
 [("sorted pair array and binary search", "lube/var.cpp: var::operator [](var), var::binary, var::insert"),
  ("ordering of values", "lube/var.cpp: var::operator <, lube/heap.cpp: Heap::lt, Heap::neq")],
 ["size, key(i), element i, lookup of every known and some unknown keys after every operation"])

prop("C06", "Views write through to their array and never reach outside it",
 "A view of an array, a sub-view, or a moved view reads and writes exactly the elements its shape and offset select; a write through any of them is seen through the array and through every other view that overlaps it, and by nothing else. A shape, offset or index that would select an element outside the array is refused with an exception and changes nothing. In-place arithmetic between views that coincide or do not overlap changes exactly the elements of the left operand, each to its own result.",
 ["histories", "schedules"],
 "All interleavings of reads, writes, whole-view assignments and in-place arithmetic through overlapping views of arrays by several actors, with valid and invalid shapes, offsets and indices.",
 "The tests create a few views with valid shapes and print them; overlap, movement after sharing and invalid requests are not combined.",
 ["lube/view.cpp", "lube/var.cpp", "lube/func.cpp", "lube/math.cpp"],
 [("view descriptor with offset, shape, stride", "lube/view.cpp: View::setStrides, View::offset, View::shape"),
  ("view creation, sub-views and bounds", "lube/var.cpp: var::view, var::subview, var::bounds, var::operator ()")],
 ["every element of the array and of every view after every operation"])

prop("C07", "A string stream returns exactly the bytes written, in order",
 "The stream over a string value behaves as an in-memory input/output stream for all byte values: what is written is appended to the string, what is read comes back byte for byte in the order written, end of data is reported exactly when the read position reaches the end and reading can continue after more is written. Peeking consumes nothing, putting back restores the previous byte, seeking moves the read position to any place from the start to the end, and the string can be taken out at any moment with all that was written. If memory runs out during a write, the stream reports failure and holds a prefix of what was written.",
 ["histories", "fault_sequences", "schedules"],
 "All interleavings of formatted and raw reads and writes, look-ahead, put-back, seeks and state clearing by a writer and a reader, with allocation failures.",
 "The test writes one short string and reads it back once.",
 ["lube/stream.cpp", "lube/var.h"],
 [("unbuffered stream buffer over a character array", "lube/stream.cpp: varbuf::overflow, uflow, underflow, pbackfail, seekpos")],
 ["every byte, stream state flag and position returned; the string contents"])

prop("C08", "Values survive the JSON text form; damaged text is refused",
 "Reading back the text form of a value made of finite real numbers, strings, arrays, maps with string keys and undefined entries gives the same contents (integers as long integers, real numbers to the precision of the stream), however the text is fragmented on its way in, whatever white space surrounds its tokens, and when several values follow each other on one stream each is read exactly and nothing after it is consumed. Text that ends before the value is complete, that is not a value (a key without value, brackets that do not match, unknown words), or whose source fails part-way, raises an exception rather than giving a partial value, leaves the target value as it was, and damaged text never crashes or hangs the reader. Characters, complex numbers and views, which have no JSON form of their own, are shown with all their elements in order, inside other values too, views of more than two dimensions with their shape in front.",
 ["inputs", "fault_sequences"],
 "All generated documents, nesting depths and spacings; every fragmentation of the input; the input ending, failing or having a byte altered at any position.",
 "The test parses a few small well-formed documents from files read in one piece.",
 ["lube/json.cpp", "lube/stream.cpp"],
 [("recursive descent reader", "lube/json.cpp: JSON::doValue, doObject, doArray, doString, doRaw"),
  ("writer", "lube/json.cpp: JSON::format, formatArray")],
 ["the value read, or the exception, and the stream position afterwards"])

prop("C09", "Text is read line by line, complete and exact, or an error is raised",
 "Reading text line by line, from a stream or with the text-file reader, gives every line exactly, with its bytes unchanged, empty lines kept, and a last line without terminator kept as it is, however the input arrives in pieces, delays or interrupted reads. If the input cannot be opened or fails part-way, the file reader raises an exception rather than returning the lines seen so far, and reading always terminates.",
 ["inputs", "fault_sequences"],
 "All text contents (line lengths across every buffer boundary, all byte values, with and without final newline), all fragmentations of reads, interrupted reads, and read errors at any position.",
 "The test reads one small file from a healthy disk.",
 ["lube/string.cpp", "lube/txtfile.cpp"],
 [("line reader with growing buffer", "lube/string.cpp: var::getline"),
  ("text file reader", "lube/txtfile.cpp: txtfile::read")],
 ["the list of lines returned, or the exception"])

prop("C10", "A save that returns has handed over every byte, unaltered",
 "When saving a text, ini, XML, graph or sound file returns normally, the file holds exactly the complete document, the same as on a fault-free disk, however the writes were split or interrupted. When the disk is full, a write, a seek or the close fails, or the file cannot be opened, saving raises an exception, as does saving in a format that cannot be saved (GEDCOM). Saving never modifies the value being saved, and what a text or ini save wrote reads back as the value saved.",
 ["fault_sequences", "inputs"],
 "All generated documents for the five savers, with short, interrupted, failing and space-limited writes, failing opens, seeks and closes at any point.",
 "The tests save one file each to a healthy disk; a lost write is only visible when a system call fails.",
 ["lube/txtfile.cpp", "lube/inifile.cpp", "lube/xmlfile.cpp", "lube/graph.cpp", "lube/sndfile.cpp"],
 [("stream writers", "lube/txtfile.cpp: txtfile::write; lube/inifile.cpp: inifile::write; lube/xmlfile.cpp: XMLWriter::write; lube/graph.cpp: Graph::writeGraphViz"),
  ("sound writer", "lube/sndfile.cpp: sndfile::write")],
 ["the file contents on the simulated disk after the call, or the exception"])

prop("C11", "An XML document is loaded completely or an error is raised",
 "Loading a well-formed XML document without a document type declaration gives its complete element tree, with names, attributes, children and text in order (line ends separate pieces of text and are not kept), however the file arrives in pieces; writing that tree and loading it again gives the same tree. A document cut short at any point, not well formed, or whose reading fails raises an exception: a partial or empty tree is never returned, and no loader resources stay behind.",
 ["inputs", "fault_sequences"],
 "All generated element trees and layouts; truncation and byte damage at any position; fragmented, interrupted and failing reads.",
 "The test loads one healthy file.",
 ["lube/xmlfile.cpp"],
 [("line-fed expat parser and callbacks", "lube/xmlfile.cpp: Expat::parse, startElementHandler, endElementHandler, characterDataHandler"),
  ("writer and escaping", "lube/xmlfile.cpp: XMLWriter::writeElem, XMLWriter::escape")],
 ["the tree returned, or the exception; memory and handles afterwards"])

prop("C12", "Configuration files merge into the settings all or nothing",
 "Loading an ini-style configuration file makes exactly the entries of the file available, each under its section and key with its full value, overriding entries loaded or set before it and leaving all others alone. If the file cannot be read completely or is malformed the load raises an exception and every setting is as it was before. Looking up an entry that is not set gives the supplied default and never disturbs other entries.",
 ["histories", "fault_sequences", "inputs"],
 "All histories of loads of generated files (sections, comments, spacing, both separators, values containing separators), explicit settings and typed lookups from several configuration objects, with fragmented and failing reads and opens.",
 "The test loads one healthy file once.",
 ["lube/config.cpp", "lube/inifile.cpp"],
 [("shared configuration store and merge", "lube/config.cpp: Config::configFile, configSet, config"),
  ("ini parser", "lube/inifile.cpp: inifile::read")],
 ["every known entry after every operation, through every configuration object"])

prop("C13", "A genealogy file loads every record and link, or raises an error",
 "Loading a GEDCOM file built from the supported records gives every individual with its name, title and sex and every family linked to the right individuals, in file order, whether the families come before or after them, however the file arrives in pieces. A file that cannot be opened, ends before its trailer record, or fails while being read raises an exception instead of returning partial data or never returning.",
 ["inputs", "fault_sequences"],
 "All generated genealogies of supported records; truncation at any line; failing opens, fragmented and failing reads at any position.",
 "The test loads one healthy file of one individual or so.",
 ["lube/gedfile.cpp"],
 [("recursive record parser", "lube/gedfile.cpp: GEDCOM::doFile, doIndividual, doFamily, readLine")],
 ["the individuals and families returned, or the exception"])

prop("C14", "Sound survives saving and loading, sample for sample",
 "Loading a sound file gives every sample of every channel in place, one row per channel, and its sampling rate; saving a signal within -1..1 and loading it back gives the same channels, length and rate with every sample equal to within the 16 bit quantisation of the file. A file that is cut short, unreadable or not a sound file, or a read that fails, raises an exception instead of giving a shorter or altered signal.",
 ["inputs", "fault_sequences"],
 "All signal lengths and channel counts, fragmented and interrupted reads and writes, failing reads, truncation of the file at any position.",
 "The sound test has no usable input file here and reads one file elsewhere.",
 ["lube/sndfile.cpp", "lube/transpose-mkl.cpp"],
 [("frame-wise transfer and transpose", "lube/sndfile.cpp: sndfile::read, sndfile::write")],
 ["samples, shape and rate returned, or the exception"])

prop("C15", "Directory listings are complete and independent of disk order",
 "Listing a directory, its whole tree or its nested form gives exactly the entries present, each under its own name with its own parts, as the same sorted result whatever order the file system delivers them in; a symbolic link is an entry like any other, which only the nested form follows. If any part of the tree cannot be read the listing raises an exception rather than leaving entries out.",
 ["inputs", "fault_sequences", "schedules"],
 "All generated directory trees, all delivery orders, entries of unknown type, and failing opens, reads and status calls at any entry.",
 "The test lists one small directory of the real file system in whatever order it is delivered.",
 ["lube/path.cpp"],
 [("directory iteration into sorted maps", "lube/path.cpp: Path::dir, Path::rdir, Path::tree, bits")],
 ["the map returned, or the exception"])

prop("C16", "A web transfer returns the exact body or raises an error",
 "A transfer that returns gives the body the server sent, byte for byte, whatever its content and however the network fragments, delays or chunks it. A refused, reset, truncated or otherwise incomplete transfer raises an exception and a partial body is never returned. Successive and interleaved transfers do not affect one another, and no connection stays open once the transferring object is gone.",
 ["fault_sequences", "schedules", "histories"],
 "All generated bodies and framings (length, chunked, until close), all fragmentations and delays of the simulated network, and refusals, resets and early closes at any byte.",
 "The test needs a real network, fetches one healthy file and is not part of the runnable set.",
 ["lube/curl.cpp"],
 [("write callback into a string value", "lube/curl.cpp: Easy::writeCallback, Easy::perform")],
 ["the string returned, or the exception; open simulated sockets afterwards"])

prop("C17", "The plotting program receives exactly the commands and data given",
 "Every write to the plotting module that returns has delivered its commands and data, complete and in order, to the plotting program's input; vectors and matrices arrive as the rows of numbers the program expects. If the program cannot be started, has gone away or its input fails, an exception is raised; a write refused for any other reason (its data, memory) sends nothing. The program is waited for and its pipe closed exactly once when the module goes.",
 ["fault_sequences", "histories"],
 "All sequences of writes of commands, vectors and matrices, by one or several plotting objects, with failing starts, short, interrupted and failing writes and a program that stops reading at any byte.",
 "No test runs the plotting module.",
 ["lube/gnuplot.cpp"],
 [("pipe stream to the child", "lube/gnuplot.cpp: gnuplot::gnuplot, puts, write, ~gnuplot")],
 ["bytes received by the simulated child after each call, or the exception; pclose calls"])

prop("C18", "Modules are unloaded only after their instances, and failures are clean",
 "A loaded module hands out working instances until the module object goes; then every instance is destroyed exactly once, in the still loaded library, before the library is released exactly once. When the library cannot be opened, lacks its factory, or making an instance fails, an exception is raised that names the reason, nothing stays loaded or allocated because of the failed attempt, and other modules and instances are unaffected.",
 ["histories", "fault_sequences"],
 "All histories of loading, creating, using and dropping modules of every kind, with failures of opening, symbol lookup, instance creation and memory at any of these steps.",
 "The tests load modules that exist and never fail.",
 ["lube/module.cpp", "lube/module.h"],
 [("dynamic loading and instance ownership", "lube/module.cpp: module::module, module::create, module::~module")],
 ["order of simulated loader calls against instance destructions; allocator balance"])

prop("C19", "Error objects always carry their message and never make things worse",
 "An error raised by the library, caught, copied or carried out of the scope that made it, gives a message that begins with the text form of what it was raised with, for as long as the object lives. Making an error succeeds whatever the call stack looks like and whatever the system says about it, and neither leaks nor crashes.",
 ["inputs", "fault_sequences", "histories"],
 "All stack descriptions the system may return (missing, unnamed, undecodable or oddly formed symbols, none at all), demangling failures, memory failures, and histories of copying and dropping errors.",
 "The tests trigger a couple of errors from one place with an ordinary stack.",
 ["lube/var.cpp", "lube/var.h"],
 [("message formatting and backtrace", "lube/var.cpp: error::error, error::backTrace, error::what")],
 ["what() immediately, after copying and after the original is gone; allocator balance"])

prop("C20", "Every operating system resource taken is given back on every path",
 "Whatever an operation on files, directories, pipes, sockets or sound files opened is closed exactly once by the time it returns, raises an exception, or its module goes, whichever call failed on the way. Nothing is used after it was closed, and a failed operation can be repeated any number of times without exhausting handles.",
 ["fault_sequences", "histories"],
 "All readers, writers, listers, transfers and plotters, with a failure of any single system call, allocation or library call at any point, repeated.",
 "The tests never make a call fail and exit right after.",
 ["lube/txtfile.cpp", "lube/inifile.cpp", "lube/xmlfile.cpp", "lube/gedfile.cpp", "lube/sndfile.cpp", "lube/graph.cpp", "lube/gnuplot.cpp", "lube/curl.cpp", "lube/path.cpp", "lube/module.cpp"],
 [("scoped streams and explicit closes", "the read and write methods of every module")],
 ["table of simulated descriptors, streams, directories and library handles after each operation"])

prop("C21", "Threads working on their own values do not disturb each other",
 "Several threads that use the library at the same time, each on values and objects of its own, get the same results as when they run one after the other, under every interleaving; nothing is corrupted, leaked or released twice, whichever of them uses a facility first.",
 ["schedules"],
 "All interleavings of the memory accesses of two to four threads running value, string, conversion, arithmetic, JSON, file reading and error operations on separate data.",
 "The tests are single threaded.",
 ["lube/var.cpp", "lube/heap.cpp", "lube/math.cpp", "lube/string.cpp", "lube/xmlfile.cpp", "lube/gedfile.cpp"],
 [("no shared mutable state besides initialised-once statics", "lube/var.cpp: Cast<T>::scalar; lube/xmlfile.cpp: Expat::element; lube/gedfile.cpp: individual, family")],
 ["per-thread results, allocator balance, accesses to released memory"])

prop("C22", "Elapsed times are measured on a clock that never runs backwards",
 "The timer reports, when it goes, the text form of its name and the time elapsed since it was made in milliseconds, equal to what passed on a steadily advancing clock, whatever jumps the wall clock makes in between and however many timers are nested or interleaved.",
 ["schedules", "fault_sequences"],
 "All sequences of starting and ending timers with arbitrary advances of time and arbitrary forward and backward wall clock jumps in between.",
 "The test leaves the timer out because its output depends on real time.",
 ["lube/var.cpp"],
 [("steady clock", "lube/var.cpp: timer::timer, timer::~timer")],
 ["the line printed by each timer against simulated time"])

# Pure functions: listed so that the breadth of the library is on record, claimed by no check
prop("C23", "String operations follow their definitions, on shared strings too",
 "Splitting, joining, stripping, case conversion, searching, matching and replacing give what their definitions say on every string. In place they change the string for exactly the handles that share it; otherwise the operand and everything else stay as they were. Arrays of strings and maps are done element by element. What is not a string, an empty separator or a pattern that does not compile raises an exception, as does running out of memory; then nothing but strings being changed in place is altered, each of them either done or not, and the same operation succeeds once there is memory again.",
 ["inputs", "histories", "fault_sequences"],
 "All histories of string operations, sharing and editing over a population of handles, all strings, separators and patterns, with allocations failing at any point.",
 "The tests use a handful of strings, each held by one handle, and never run out of memory.",
 ["lube/string.cpp", "lube/string.h", "lube/regex.h"],
 [("in place or not", "lube/string.cpp: StringFunctor::operator(), Strip::string, ToUpper::string, Search::string, Replace::string"), ("pieces", "lube/string.cpp: var::split, var::join")],
 ["contents and sharing of all handles after every operation", "allocator balance"])

prop("C24", "Command lines are parsed as declared, whatever was parsed before",
 "Each option object gives the options of its own command line in order, alone or clustered, with their arguments attached or separate, repeated ones with the last argument, declared ones that do not occur with their default, and then exactly the arguments that remain, whatever objects before it parsed, left half-read or failed to finish. What is not an option, or lacks its argument, is reported as such; declared parsing then shows the usage and ends the program, and does neither for a good command line. The usage lists every option with its description and default, before parsing too. Running out of memory raises an exception and leaves later objects unaffected.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences of option objects in a process, all declarations of letters and digits, all command lines, with allocations failing at any point.",
 "The test parses one fixed command line, with each option once.",
 ["lube/config.cpp", "lube/config.h"],
 [("state shared through the C library", "lube/config.cpp: Option::Option, Option::operator bool"), ("declared options", "lube/config.cpp: Option::parse, Option::usage")],
 ["options and arguments returned", "text shown", "exit of the program"])

prop("C25", "Arithmetic and element-wise functions give the right values",
 "Arithmetic operators, in-place forms and mathematical functions on numbers, lists, maps, arrays and views of any numeric type give, element for element, the value of the scalar operation, the right operand being repeated over the leading dimensions of the left; type and shape follow the left operand (magnitudes are real). The operands, and everything sharing nothing with the result, stay unchanged; a result given an output of the right type and shape is written exactly there. What does not fit in type or shape is refused with an exception without touching memory outside the output, and running out of memory leaves each element either done or as it was.",
 ["inputs", "histories", "fault_sequences"],
 "All numeric types, shapes and values for which the operation is defined, outside integer overflow, integer division by zero and outputs that partially overlap an operand; all sequences of such operations on shared storage, with allocations failing at any point.",
 "The tests print a handful of results on arrays of one or two shapes, and mostly of one type.",
 ["lube/math.cpp", "lube/math.h", "lube/func.cpp", "lube/func.h", "lube/var.cpp"],
 [("functors", "lube/math.cpp: Add, Sub, Mul, Div, Set, MATH_ONE_FUNCTOR functions"), ("broadcasting", "lube/func.cpp: UnaryFunctor::broadcast, ArithmeticFunctor::broadcast"), ("operators", "lube/var.cpp: operator+= and its like, cast")],
 ["the returned value", "the operands and everything sharing storage with them", "exceptions"])

prop("C26", "Products, reductions, sorting, polynomials and transforms match their maths",
 "Dot and matrix products, sums and absolute sums, the position of the largest magnitude, transposition, sorting, concatenation, swapping, polynomials and their roots, and forward and inverse Fourier transforms of single and double precision agree with their mathematical definitions to rounding error, for every shape they accept, row by row for leading dimensions; an inverse transform undoes the forward one, and a transform object can be used any number of times on any number of arrays. Arrays, types or transform sizes that do not fit are refused with an exception without touching memory outside the arrays; running out of memory raises an exception and the same operation succeeds later.",
 ["inputs", "histories", "fault_sequences"],
 "All numeric types and shapes accepted, values of moderate range, polynomials of degree up to 8 for roots, outputs that fit when given; all sequences of such operations, with allocations failing at any point.",
 "The tests print a handful of results for one or two sizes each.",
 ["lube/math.cpp", "lube/func.cpp", "lube/clapack.cpp", "lube/dft-mkl.cpp", "lube/dft.h", "lube/transpose-mkl.cpp"],
 [("BLAS, LAPACK and FFT wrappers", "lube/clapack.cpp, lube/dft-mkl.cpp"), ("functors", "lube/math.cpp: Dot, Sum, ASum, IAMax, Sort, Transpose, Concatenate, Swap, Poly, Roots"), ("row by row broadcasting", "lube/func.cpp: UnaryFunctor, BinaryFunctor")],
 ["the returned value", "the operands", "exceptions"])

prop("C27", "Values are made and converted exactly as asked; their sources stay the same",
 "Every way of making a value gives exactly that value: numbers and characters, texts by terminator or length, C arrays of integers and of texts, lists, repetitions of one value, arrays and views of a given shape and type, ranges with either end included, arrays like another one, and casts of numbers, texts and lists to any numeric type. Type names, lengths in characters, shapes and sizes reported are those of the value. The values given, also when they are elements of arrays others share, are only read: neither making the new value nor changing it afterwards alters them or any other value. What can not be made or converted is refused with an exception; so is running out of memory, leaving every other value as it was, and then the same works once there is memory again.",
 ["inputs", "histories", "fault_sequences"],
 "All histories of making, converting and sharing values over a population of handles, from literals, handles and elements, with allocations failing at any point.",
 "The tests make values from literals, mostly once per kind, and never from elements of shared arrays or with an allocation failing.",
 ["lube/var.cpp", "lube/var.h", "lube/view.cpp", "lube/utf8.cpp"],
 [("constructors", "lube/var.cpp: var::var(...)"), ("shaped values and ranges", "lube/var.cpp: libube::view, libube::range, libube::irange, var::copy"), ("conversions", "lube/var.cpp: Cast::scalar, var::cast, typeStr; lube/utf8.cpp: var::len")],
 ["type, shape, size and contents of the new value", "contents and sharing of all handles", "allocator balance"])

prop("N05", "Index values keep their sign convention",
 "The index type converts, compares and inverts like the integer it wraps, and counts as true exactly when it is not negative.",
 ["inputs"], "All integers.",
 "The test samples a few values; it is a pure function of one integer.",
 ["lube/ind.h"], [("index class", "lube/ind.h")], ["the returned value"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
