#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
IO="include/g3io.hpp"; VAL="include/g3validity.hpp"; FUN="include/g3func.hpp"; CMP="include/g3compare.hpp"
TYP="include/g3type.hpp"; CON="include/g3const.hpp"; UNI="include/g3opsUni.hpp"; PRV="include/g3_private.hpp"
SRC="src/engabra.cpp"
MUL=["include/g3opsMul.hpp"]+["include/g3opsMul_%s.hpp"%t for t in "double Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector".split()]
ADD=["include/g3opsAdd.hpp","include/g3opsAdd_same.hpp"]+["include/g3opsAdd_%s.hpp"%t for t in "Scalar Vector BiVector TriVector Spinor ImSpin ComPlex DirPlex MultiVector".split()]
SUB=[f.replace("Add","Sub") for f in ADD]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
        **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {}),
        **({"observe_at":observe} if observe else {}),"hook_needed":hook}})

p("C01","Stream extraction is all-or-null under any input fault",
 "Extracting any G3 type from any input stream - truncated, malformed, failing or throwing at any byte, out of memory, with any stream exception mask - leaves the target either valid with every component exactly the number read for it, in component order, or not valid; it is never a mix of new, old and default components that tests valid. When every component was read as a valid number (zero or normal) and nothing was thrown, the target is valid. A stream failure met on the way stays visible in the stream state, and an exception leaves the extraction only if the stream's exception mask asks for it.",
 ["inputs","fault_sequences","configurations"],
 "all 9 G3 types x prior target contents x byte streams x fault position and kind (EOF, read error, device exception, allocation failure) x exception mask x initial stream state",
 "The tests extract from intact istringstreams and one truncated one, with exceptions off; they never fail the device inside a number, never enable stream exceptions, never reuse a target that already holds a valid value.",
 [IO,VAL,CON],[("operator>> for std::array, blades and composites",IO),("io::priv::isInputOkay",IO),("null fill with NaN",IO),("isValid()",VAL)],
 ["target components and isValid() after operator>>","stream rdstate()","exceptions leaving operator>>"])
p("C02","Extraction does not depend on how input is delivered",
 "What an extraction sequence yields - every value, every validity, the stream state after each step, and the first character left unread - depends only on the bytes of the input, not on how the device hands them over: chunk sizes, one-byte reads, unbuffered devices, devices that cannot put back or cannot say how much is available.",
 ["schedules","inputs"],
 "all delivery schedules (chunkings, buffered or unbuffered, availability hints) of all input byte strings, for all sequences of extracted types",
 "All tests read from an in-memory istringstream that delivers everything in one buffer; no other delivery schedule is ever exercised.",
 [IO,VAL],[("operator>> reads element by element through the standard numeric extraction",IO)],
 ["values, rdstate() and remaining bytes after each extraction"])
p("C03","Consecutive extractions stay framed across failures and recovery",
 "A sequence of extractions of any G3 types from one stream yields the numbers of the stream in order: each successful extraction consumes exactly its own numbers and nothing after the last of them, so that neighbouring items and plain values read next are the ones that follow in the stream. Once the stream has failed, every further extraction yields a not-valid target and consumes nothing until the stream is cleared. After clearing and skipping to the next record, extraction resumes with that record's values.",
 ["histories","fault_sequences","inputs"],
 "all histories of extractions, plain reads, clears and skips over streams of records, some corrupted (garbage, missing numbers, out-of-range numbers, subnormals) or hit by transient device failures",
 "The tests perform one chain of five successful extractions and one failing one; no test reads on after a failure, clears the stream, or mixes plain reads between G3 items.",
 [IO],[("operator>> for std::array, blades and composites",IO)],
 ["sequence of values and validity over a multi-record stream"])
p("C04","A failing output device never yields silently wrong text",
 "When G3 values, their fixed and e-notation strings and plain separators are written to a stream whose device fails, throws or accepts short writes at any byte, or while memory is exhausted, the bytes that reach the device are exactly a prefix of the text a fault-free run writes. If they are not the whole text then the failure is visible to the caller as an exception or as a failed stream state; a stream left good has delivered or buffered everything. After the caller clears the failure, the next value is written completely from its beginning.",
 ["fault_sequences","crash_points","inputs"],
 "all sequences of insertions of all 9 types x device fault position, kind (error, exception, short write, failing flush) and permanence x allocation failures x exception mask",
 "The tests only write to ostringstreams that never fail; no failing device, short write, stream exception or allocation failure is ever injected.",
 [IO],[("operator<< for blades and composites",IO),("io::priv::put",IO),("io::fixed / io::enote",IO)],
 ["bytes accepted by the device","ostream rdstate() and exceptions"])
p("C05","Inserting a G3 value neither obeys nor disturbs stream formatting",
 "The text a G3 value produces on an output stream does not depend on the number formatting the stream was set to before (base, notation, precision, fill, sign, case, adjustment), whatever values and manipulators preceded it. Inserting it, also when the insertion fails or throws part way, leaves that formatting and the stream's exception mask as they were, so plain values written next appear exactly as they would without it.",
 ["histories","fault_sequences"],
 "all histories of manipulators, plain values and G3 insertions on one stream, with device and allocation failures at arbitrary points",
 "The tests look at single insertions on fresh streams; none sets manipulators before, inspects the stream's formatting after, or makes an insertion fail.",
 [IO],[("io::priv::put formats into a private stringstream and inserts the text",IO),("operator<< for composites",IO)],
 ["text on the device","flags(), precision(), fill(), exceptions() after each insertion"])
p("C06","String encoders return the whole text or throw when memory runs out",
 "io::fixed and io::enote, for every type they accept and any digit counts, either return the complete text - every component with every digit asked for, the same text they return when memory is plentiful - or throw; no allocation failure at any point makes them return shortened or altered text. A failed call leaks nothing and leaves later calls, with memory available again, returning the complete text.",
 ["fault_sequences","inputs"],
 "all encoder overloads x values x digit counts x which allocations fail (any single one, from some point on, or a random subset)",
 "No test makes an allocation fail, so the path where the internal string stream cannot grow is never run.",
 [IO],[("io::fixed and io::enote overloads built on std::stringstream",IO)],
 ["returned text or exception","live allocations after the call"])
p("C07","Records of G3 values survive crashes of the store that holds them",
 "When G3 values are appended as text records (io::enote, or operator<<) with terminators to a file that may suffer short writes, lost or torn unsynced tails, and crashes at any byte, then after restart every record acknowledged as durable reads back, in order, as the value written: bit for bit with io::enote at 16 or more digits after the point, to 1e-15 relative with its default digits, and to half a unit of its last printed place with operator<<. An unacknowledged record reads back as what was written or is recognisably incomplete, and a null value never reads back as valid.",
 ["crash_points","histories","inputs"],
 "all histories of appends, syncs, write faults, crashes and restarts over a simulated disk; all 9 types; values over the finite range the text format can hold",
 "The tests round-trip five fixed values once through one in-memory string; no persistence, tearing, restart, extreme magnitudes or nulls.",
 [IO,VAL],[("io::enote precision and separators",IO),("operator<< layout",IO),("operator>>",IO)],
 ["records recovered after restart"])
p("C08","G3 text on a stream follows that stream's locale, enote is neutral",
 "Inserting or extracting a G3 value uses the locale of the stream it is applied to, and io::enote always produces plain ASCII numbers with a point and no grouping, whatever the process-wide locale is and whenever other code replaces it - also in the middle of a call. Hence text written by io::enote, or to a stream with the classic locale, is read back by any reader using the classic locale, and a stream with another locale round-trips with readers of that same locale.",
 ["schedules","configurations","inputs"],
 "all points (between and inside calls) at which the process-wide locale is switched among classic, decimal-comma and digit-grouping locales; all stream locales; all types",
 "The tests run only in the default process locale and with default stream locales, and nothing ever changes them.",
 [IO],[("io::priv::put and io::enote create private string streams",IO)],
 ["text produced and values recovered under locale switches"])
p("C09","Algebra and functions are safe to call from many threads",
 "Any number of threads may concurrently apply any arithmetic, unary, comparison, validity, magnitude, inverse, exponential, logarithm or root operation to shared constant operands; under every interleaving each call returns exactly what it returns when run alone. No operation modifies its operands, and no operation makes an unsynchronised access to storage another caller can write.",
 ["schedules","inputs"],
 "all interleavings, at the granularity of single memory accesses, of 2-4 threads running operation sequences over shared operands",
 "Every test is single threaded; hidden shared scratch or cached state would pass all of them.",
 [FUN,CMP,VAL,UNI,PRV]+MUL+ADD+SUB,[("operations work only on their arguments and locals; all constants are immutable","include/*.hpp")],
 ["result of each call","operand bytes","conflicting accesses to static storage"])
p("C10","Formatting and parsing on private streams is thread safe",
 "Threads that concurrently format G3 values to strings, insert them into or extract them from streams of their own do not influence one another: under every interleaving each call produces the text, value and stream state it produces when run alone, and no call makes an unsynchronised access to storage another caller can write.",
 ["schedules","inputs"],
 "all interleavings, at the granularity of single memory accesses and library calls, of 2-4 threads running fixed/enote/insertion/extraction sequences on private streams",
 "Every test is single threaded; a shared scratch stream or buffer would pass all of them.",
 [IO,VAL],[("each call formats into its own local string stream",IO)],
 ["text, value and stream state of each call","conflicting accesses to static storage"])
p("C11","Identity, constants and operations are right at every moment of process life",
 "projectVersion() and sourceIdentity() return the configured texts, and the library's named constants (basis elements, null, zero, one, pi and turn values) their documented values, at every moment: from initialisers that run before main, from several threads calling for the first time at once, after an allocation failure inside an earlier call, and from exit handlers and destructors that run while the process shuts down. Every other operation - arithmetic, functions, comparison, formatting, insertion, extraction - called from an ordinary initialiser before main, or from an exit handler or a destructor of a static or thread-local object, yields what it yields when called from main.",
 ["schedules","fault_sequences","crash_points"],
 "all orders of first calls, thread interleavings, allocation failures and exit-handler registrations over the life of a process, for identity, constants and all operations on all types",
 "The tests call the functions from main only, once, in a single thread, with memory available.",
 [SRC,CON,TYP,FUN,IO,"include/engabra.hpp"],[("function results are built from build-time literals",SRC),("constants are constant-initialised",CON)],
 ["returned strings and constant values at each lifecycle point"])
p("C12","Results never depend on call history, failed calls or time",
 "The result of any library operation - arithmetic, functions, comparison, formatting, insertion, extraction, identity - is determined by its arguments and the state of the stream it is given: in any history of calls, including calls that failed or threw because of device or allocation faults, each call yields what the same call yields as the very first one in a fresh process, whatever the clock shows.",
 ["histories","fault_sequences"],
 "all histories of operations over all types, with injected allocation, device and clock faults and changes of ambient state (environment variables, errno, floating-point flags, addresses of operands) between and inside the calls",
 "Each test calls an operation a few times on fixed inputs with no failing call in between; dependence on earlier or failed calls would show only for particular histories.",
 [IO,FUN,CMP,VAL,UNI,PRV,SRC]+MUL+ADD+SUB,[("no operation keeps state between calls","include/*.hpp")],
 ["result of each call compared with a first-call result"])
p("C13","A null operand never turns into a valid result",
 "If any component of an operand is not a number - because reading it failed or because it was overwritten by null at any moment - then everything computed from it by arithmetic, unary operations, magnitude, amplitude, direction, inverse, exponential, logarithm or square root tests not valid, never compares equal or nearly equal to anything, and stays not valid when written out and read back. Results that do not depend on that operand are exactly those of the undisturbed run.",
 ["fault_sequences","histories","inputs"],
 "all dataflow programs over all operations and types x which inputs fail to read (at which byte, how) or are overwritten by null in which single component and when",
 "The tests check isValid on freshly made all-null instances of each type; they never follow a null through operations, nor set only one component to null.",
 [VAL,FUN,CMP,CON,IO]+MUL+ADD+SUB,[("NaN propagation through component formulas","include/g3ops*.hpp"),("isValid() guards in exp, logG2, sqrtG2, nearlyEquals, inverse, pairMagDirFrom",FUN),("isValid() tests all components",VAL)],
 ["isValid() and components of every derived value"])
p("C14","Arithmetic works and never throws when memory is exhausted",
 "Every arithmetic, unary, comparison, validity, magnitude, amplitude, direction, inverse, exponential, logarithm and root operation, and reading any component, completes without throwing and with its ordinary result while every memory allocation fails, and likewise when allocations fail intermittently.",
 ["fault_sequences","inputs"],
 "all operations x operand values x allocation failure patterns",
 "The tests never make an allocation fail, so an operation that began to allocate would pass all of them.",
 [FUN,CMP,VAL,UNI,PRV,TYP]+MUL+ADD+SUB,[("all types are fixed-size aggregates; operations use only locals","include/*.hpp")],
 ["results and exceptions while the allocator fails"])
p("C15","Input and output return promptly on dead devices",
 "Inserting into or extracting from a stream whose device has stopped working for good - reports end of file, errors or throws at every request from some point on - returns to the caller after a number of device requests bounded by a small multiple of the number of components, never loops or retries without bound, and consumes no input once the stream has failed.",
 ["fault_sequences","inputs"],
 "all types x device fault position and kind x initial stream states x sequences of operations on the failing stream",
 "The tests use devices that never fail, so a retry loop around a failing read or write is never entered.",
 [IO],[("operator>> stops at the first failed element",IO),("operator<< delegates to the standard inserters",IO)],
 ["count of device requests per operation"])
p("C16","Library calls have no visible effect besides their result",
 "No library operation, whether it succeeds or fails, writes to the process's standard output or error or to any stream other than the one it is given, changes the format, state or buffers of the standard streams, the process-wide locale, the floating-point rounding mode or trap settings, signal handlers and masks, environment variables, open files, the heap (all memory it took is returned, however often it is called), or the environment's pseudo-random state, nor makes the standard output write out text it was holding back.",
 ["histories","fault_sequences"],
 "all histories of operations over all types, with injected allocation and device failures at arbitrary points",
 "The tests never look at ambient state, and debug output to std::cout does not fail them.",
 [FUN,IO,CMP,VAL,UNI,SRC]+MUL+ADD+SUB,[("operations return values only","include/*.hpp")],
 ["standard streams, fd 1 and 2, global locale, floating-point environment, live heap, rand() use"])
p("C17","Library calls may be nested inside other library calls",
 "Any arithmetic, unary, comparison, validity, magnitude, inverse, exponential, logarithm or root operation may interrupt any other library call of the same thread at any point (as from a signal handler), and a stream device may call any library operation, on other streams, while the library is reading from or writing to it. Neither the interrupted nor the nested call is affected: each returns the value, text and stream state it returns when run alone, to any depth of nesting and also when a nested call fails, and none waits for ever.",
 ["schedules","histories","fault_sequences"],
 "all pairs (and deeper nestings) of operations x the step or device request at which the inner call happens x allocation failures of nested calls",
 "The tests make one call after the other; no call is ever in progress when another starts, so shared scratch storage, locks or half-updated caches inside the library would go unnoticed.",
 [FUN,IO,CMP,VAL,UNI,PRV,SRC]+MUL+ADD+SUB,[("operations use only locals and their arguments; no lock, no static or thread-local scratch","include/*.hpp")],
 ["result of every call of the nesting compared with its result alone"])
p("C18","A conversation in G3 values over pipes makes progress",
 "Two parties that exchange G3 values as text over byte channels - inserted or encoded by io::enote, ended by a newline, flushed, and extracted by the other side - always make progress: an extraction returns once the character after its last number has arrived and never waits for later input, whatever the fragmentation, delays, channel capacity, exception masks and interleaving; every value received is the one sent, in order. When a party dies part way through a message, or its sending call fails, the other party's pending extraction returns, with a failed stream or end of input, and never yields a valid value from a message of which some component did not arrive.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "all scripts of messages in both directions x types x encoders x fragmentations, stalls and capacities x interleavings x crash points and allocation failures",
 "The tests read from strings that already hold everything; waiting for input that has not arrived yet, and the death of the other party, never happen in them.",
 [IO],[("operator>> stops at the character after its last number",IO),("operator<< hands the whole text to the stream",IO)],
 ["values received, stream states, parties blocked for ever"])

p("C19","A thread that ends in the middle of a call leaves nothing broken behind",
 "When the thread that runs a stream insertion or extraction is ended in the middle of it - by pthread_exit or by cancellation while the device of the stream waits - the process lives on; no lock or busy mark stays behind, no memory is lost; a target of the cut extraction is null or untouched and never tests valid as a mixture; the bytes the device was given are a beginning of the complete text; the stream keeps its formatting, exception mask, locale and buffer; and every later call, on the same stream once its state is cleared, on other streams and in other threads, gives what it gives when nothing was cut short.",
 ["schedules","crash_points","fault_sequences","inputs"],
 "all types x bytes of the device at which the thread ends x ways of ending x exception masks x threads at work meanwhile x later calls",
 "No test ends a thread inside a call; the forced unwinding passes through library code in ways no ordinary exception does (it cannot be stored or swallowed and is no std::exception).",
 [IO],[("operator<< and operator>> leave the stream and target consistent when unwound",IO)],
 ["process status, stream state, targets, heap blocks and later results"])

NAWHY="The tests compare a handful of fixed operands against hand-computed values; the property quantifies over all real operands."
def n(id,title,st,files,mech,over=("inputs",),text="all operand values"):
    p(id,title,st,list(over),text,NAWHY,files,[(mech,files[0])])
n("N01","The geometric product follows the G3 basis multiplication table",
 "For all pairs of types, the product of two entities equals, component by component and within rounding, the bilinear extension of the basis table generated by e1,e2,e3 squaring to +1 and anticommuting.",MUL+[PRV],"operator* overloads built on prodComm and prodAnti")
n("N02","Sums and products obey the ring laws of the algebra",
 "Within rounding, addition is commutative and associative, the product is associative and distributes over addition, and scalars, trivectors and their sums commute with everything.",MUL+ADD+SUB,"operator+, operator-, operator*")
n("N03","Mixed-type operations agree with their MultiVector promotion",
 "For every supported pair of types, adding, subtracting or multiplying directly gives the same components as promoting both operands to MultiVector and operating there.",MUL+ADD+SUB,"specialised overloads per type pair",("inputs","programs"))
n("N04","Involutions and duals follow their sign rules",
 "negation, reverse, oddverse and dirverse flip exactly the documented grades, are involutions, compose pairwise to the third, reverse is an anti-automorphism, and dual equals multiplication by e123 with the documented signs.",[UNI],"unary operator overloads")
n("N05","Magnitude, amplitude and direction are consistent",
 "magSq is the sum of squared components, amplitude squared equals item times dirverse(item), and magnitude times direction reproduces the item for all non-zero items.",[FUN],"magSq, ampSq, amplitude, pairMagDirFrom, direction")
n("N06","inverse() is the two-sided multiplicative inverse or null",
 "For every item with an inverse, item times inverse(item) is one within rounding, and where no inverse exists the result is null.",[FUN],"inverse overloads")
n("N07","exp, logG2 and sqrtG2 invert each other on their domains",
 "exp(logG2(s)) and sqrtG2(s)*sqrtG2(s) reproduce s within rounding for every spinor with a logarithm, the log is on the principal branch, and exp of a bivector is a unit rotor.",[FUN],"exp, logG2, sqrtG2 special-case branches")
n("N08","nearlyEquals implements its documented tolerance rule",
 "Comparison is true exactly when both sides are valid and differ by less than the tolerance, relative to the reference or absolutely near zero.",[CMP],"nearlyEquals overloads")
n("N09","Construction, component access and conversion are faithful",
 "Components read back by subscript and member are those constructed, out-of-range subscripts give NaN, and conversions to and from std::complex and between types preserve components.",[TYP],"operator[] and constructors")
n("N10","Constants form a dextral orthonormal basis",
 "The basis constants square to the documented signs, are mutually orthogonal and dextral, zero is additive and one multiplicative identity, and each null is not valid.",[CON],"static const basis elements and null/zero/one templates")
n("N11","fixed() and enote() lay out digits as documented",
 "For all values and digit counts the text has the documented field width, separators and number of digits, and is the correctly rounded decimal.",[IO],"DoubleFormat and prepareEnote")
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
