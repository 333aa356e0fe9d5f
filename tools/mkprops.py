#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

DEM = "src/demangle.cxx"
p("D01", "Demangling is memory-safe and terminates on every string",
  "For every NUL-terminated byte string, demangling it as a symbol or as a type returns normally: it reads no byte past the terminator, writes only into the output string, performs no undefined arithmetic and needs no unbounded stack. This holds for truncated, corrupted and adversarial manglings just as for well-formed ones.",
  ["inputs"], "all NUL-terminated byte strings, for both the symbol and the type entry point",
  "The demangler tests run a fixed list of well-formed names without sanitizers; a parser that runs past the terminator on a truncated name still returns the right answer there.",
  [DEM, "include/cwd_demangle.h", "include/libcwd/demangle.h"],
  [("recursive descent over the mangled name with a result of failure propagated upward", "demangle.cxx / cwd_demangle.h")],
  ["process exit status, sanitizer reports and heap guard around the input while calling the two demangle functions"])
p("D02", "A name that cannot be demangled is passed through unchanged",
  "Demangling either appends a readable name or, when the input is not a mangled name that can be decoded in full, appends exactly the input: never a part of a decoded name, also not for a name that was cut off or that has a tail behind it. A null pointer yields the text (null). Whatever the output string already held is kept as a prefix and has no influence on what is appended, and the answer depends only on the input, never on earlier calls.",
  ["inputs", "histories"], "every input string, every prior content of the output string, and every order of calls in one process",
  "The tests demangle a fixed list once each into an empty string; they never look at prior content, at trailing junk after a valid name, at call order, or at mutated names.",
  [DEM, "include/cwd_demangle.h"],
  [("fallback to the original name when decoding fails or does not consume all input", "demangle_symbol / demangle_type")],
  ["the appended string"])
p("D03", "Mangled C++ types demangle to the C++ type they denote",
  "For every type of the C++98 type system - builtins, class, nested, local and templated types, pointers, references, cv-qualifiers, arrays, functions, pointers to members, template arguments that are types, templates, literals, addresses or expressions - demangling the string that run-time type information gives for it yields the C++ spelling of that type. Repeated components that the mangling abbreviates denote the same component in the output.",
  ["inputs"], "all type expressions of the C++98 type grammar, to arbitrary nesting, with all substitutions the ABI prescribes",
  "A few dozen fixed types are tested; nested declarators, qualifier placement and back-references combine without bound.",
  [DEM, "include/cwd_demangle.h", "src/type_info.cxx", "include/libcwd/type_info.h"],
  [("type decoding with declarator prefix/postfix", "decode_type_with_postfix"), ("substitution table", "decode_substitution / add_substitution")],
  ["the demangled string of a type"])
p("D04", "Mangled C++ symbols demangle to the entity they denote",
  "For every function, member, operator, constructor, destructor, template instantiation, local entity, static initializer and compiler-generated object (virtual table, type information, guard variable, thunk) that a C++98 program can give a mangled name, demangling its symbol yields the qualified name with its template arguments, parameter list, member qualifiers and, for function templates, return type. Two symbols that the ABI gives to different entities never come out with a component of one replaced by a component of the other.",
  ["inputs"], "all encodings of the C++98 part of the ABI grammar (qualified names x parameters x template arguments x special prefixes), to arbitrary nesting",
  "The demangler tests have about a hundred fixed names; interactions (which component gets which substitution number, return types of template members, qualifiers of member functions, all 40-odd operators) are unbounded.",
  [DEM, "include/cwd_demangle.h"],
  [("encoding / nested name / local name / special name decoding", "decode_encoding, decode_nested_name, decode_local_name, decode_special_name"), ("operator table", "decode_operator_name")],
  ["the demangled string of a symbol"])
p("D05", "Literals in template arguments keep their exact value",
  "An integer, boolean, character or enumeration literal that occurs as a template argument appears in the demangled name with exactly its value, however many digits it has, and with its type unless that is int or bool. A literal of type double appears as a decimal number that, when read back, gives the identical value, and one of type float with its value correct to eight significant digits; this holds for every bit pattern including negative zero, subnormal numbers, infinities and not-a-number. Literals of wider floating-point types appear with all their digits.",
  ["inputs"], "all integer values of any length, all 2^32 float and 2^64 double bit patterns, all literal types",
  "No test reaches floating-point literals beyond one or two values; a lossy or truncated conversion is visible only for particular bit patterns.",
  [DEM],
  [("literal decoding", "decode_literal, decode_real, decode_number"), ("binary to decimal conversion", "decimal_float, print_IEEE_fp")],
  ["the demangled string"])
p("U01", "Wildcard channel masks match exactly the names they describe",
  "A mask of given length matches a name exactly if the name can be obtained from the mask by replacing every asterisk by some, possibly empty, text; nothing outside the given length of the mask has any influence. This holds for every mask and name, including empty ones and runs of asterisks.",
  ["inputs"], "all masks (length-delimited) x all names",
  "No stable test calls the matcher; matching with several asterisks needs backtracking that few examples exercise.",
  ["src/utils/match.cxx", "include/match.h", "src/utils/rcfile.cxx"],
  [("recursive wildcard matching", "match")], ["the boolean result", "which channels a configuration line switches"])
p("U02", "Escaped characters and buffers print losslessly and printably",
  "Printing a character or a buffer through the escaping helpers writes only printable ASCII: a printable character other than the backslash is written as itself, the named control characters as their backslash letter, a backslash as two backslashes, and any other byte as backslash, x and exactly two upper-case hexadecimal digits. The output of a buffer is the concatenation of its characters, covers exactly the given number of bytes including embedded zero bytes, and does not depend on or change the formatting state of the stream.",
  ["inputs"], "all 256 characters, all byte buffers of any length, all stream formatting states",
  "No stable test prints an escaped buffer; a wrong digit or sign problem shows only for particular bytes.",
  ["src/utils/char2str.cxx", "include/libcwd/char2str.h", "include/libcwd/buf2str.h"],
  [("printable test and escape table", "operator<< for char2str, buf2str")], ["bytes written to the ostream"])
p("U03", "Every error number maps to its symbolic name",
  "For every error number that the operating system defines, asking for its name gives a symbolic name whose value in the system headers is that number, and for every other integer, including zero-crossing, negative and out-of-range values, the answer is a harmless printable text. The answer never depends on earlier calls and error number zero has a name of its own.",
  ["inputs"], "all values of int",
  "No test calls it; an off-by-one in a hand-written table is only visible per entry.",
  ["src/strerrno.cxx", "include/libcwd/strerrno.h"], [("error name table", "strerrno")], ["the returned text"])
p("U04", "Type information names, sizes and references are correct for any type",
  "For any type of the C++98 type system, the type information describes that very type: its demangled name, its mangled name, its size, and for (also cv-qualified) pointers the size of what is pointed to, or zero where that is not a complete object type. The information for a type given as a template argument keeps top-level qualifiers (also of array elements) and references, the information for an expression is that of its value type without them, repeated queries give the same object, and the special unknown type has the name <unknown type> and size zero whatever was asked before.",
  ["programs"], "all C++98 types and expressions a program can name, in any order of first use",
  "One test covers a dozen fixed types.",
  ["include/libcwd/type_info.h", "src/type_info.cxx"],
  [("per-type static information filled at first use", "type_info_of")], ["name(), demangled_name(), size(), ref_size()"])
p("U05", "A lockable auto pointer has exactly one owner and deletes exactly once",
  "After any sequence of constructions, copies, assignments, releases, resets, locks and accesses, every object handed to a lockable auto pointer is deleted exactly once, by the pointer that owns it and not before that owner is destroyed, reset or assigned over. Copying or assigning from an unlocked owner transfers ownership, while from a locked owner it leaves ownership where it is; a lock stays with the pointer it was put on until that is unlocked, and a new pointer is not locked; dereferencing keeps working on every copy as long as the owner lives.",
  ["histories"], "all sequences of operations over several pointers, single and array form, and related types",
  "One test follows one fixed scenario.",
  ["include/libcwd/lockable_auto_ptr.h"], [("owner and locked flags", "lockable_auto_ptr")], ["object destruction order and counts, get(), is_owner(), strict_owner()"])
p("U06", "The symbol table assigns each address to the best enclosing function",
  "After any sequence of inserted function symbol ranges, the ranges held are disjoint and non-empty, and together cover exactly the union of what was inserted. Each address belongs to a range that contains it, where a symbol with debug information beats one without, among equals the one with the smaller original extent wins, and on a tie the one inserted first.",
  ["inputs", "histories"], "all sequences of possibly overlapping, nested, equal, empty address ranges with either provenance",
  "One non-stable test inserts a handful of fixed ranges; overlaps that split pieces in three or more interact combinatorially.",
  ["include/dwarf_symbol_ranges.h", "src/dwarf.cxx"],
  [("piecewise insertion into an ordered map of fragments", "insert_function_symbol_range")], ["the resulting map of fragments; the insert result"])

ENG = ["src/debug.cxx", "include/libcwd/debug.h", "include/libcwd/ChannelSet.inl.h", "include/libcwd/DebugObject.inl.h", "include/libcwd/DebugObject_ThreadSpecificData.h"]
p("U07", "The utilities can be used by several threads at the same time",
  "Threads that at the same moment ask for type information, also of the same type and for the first time, demangle symbols and types, look up error names and escape characters or buffers each get the answer that a single thread gets; the type information of a type is one object for all threads, complete from the first moment that any of them sees it, and no access to shared data is unsynchronized.",
  ["schedules", "inputs"], "all interleavings of calls of the utilities by several threads",
  "The tests of the utilities have a single thread.",
  ["include/libcwd/type_info.h", "src/type_info.cxx", "src/demangle.cxx", "src/strerrno.cxx"],
  [("type information that is made on first use", "type_info<T>::value, libcwd_type_info_exact<T>::value")], ["answers", "data races"])
p("E01", "Debug output is written if and only if object and channel are on",
  "A debug statement writes its message exactly if the debug object is on and at least one of its listed channels is on, and the operands of a statement that writes nothing are not evaluated at all. The label shown is that of the first listed channel that is on, and every operand is evaluated exactly once, in order.",
  ["histories", "inputs"], "all sequences of switching objects and channels and of statements with any set of channels and nested calls",
  "The stable tests never produce debug output; the others compare one fixed transcript.",
  ENG + ["src/threading.cxx"], [("channel-set gating in the output macros", "LibcwDout / ChannelSetBootstrap"), ("on/off counters", "Channel::on/off, DebugObject::on/off")],
  ["bytes written to the chosen ostream; side effects of operands"])
p("E02", "Every message is laid out as its control flags prescribe",
  "A complete message consists of color code, margin, label padded to the width of the longest label, marker, indentation, the text, color code and one newline, and each control flag changes exactly its own element: no prefix, no label, blank margin, blank label, blank marker, no newline, waiting marker, error text. The layout is the same for every text and does not depend on the formatting state that operands of earlier statements left behind, nor on whether writing one of the operands failed.",
  ["inputs", "histories"], "all combinations of control flags x margins x markers x indentation x texts x registered channels",
  "One non-stable test prints a few flags one by one against a fixed transcript.",
  ENG, [("prefix construction", "DebugObject_ThreadSpecificData::start"), ("completion", "DebugObject_ThreadSpecificData::finish")],
  ["bytes written to the chosen ostream"])
p("E03", "Interrupted messages are marked and resumed without losing text",
  "When debug output is written while a continued message is unfinished, the text so far is written and marked as unfinished, the interrupting output comes out on lines of its own, indented when it nests, and the continued message resumes on a line marked as continued; an ordinary message comes out whole, after the more indented messages that its operands wrote. No character of any message is lost, duplicated or attached to another message, every message is ended exactly once, for any depth and order of nesting, and after the outermost message ends the engine is back in the state it was in before.",
  ["histories"], "all trees of nested, continued and finished messages over several channels that are on or off",
  "A non-stable test has a few fixed nestings.",
  ENG, [("stack of unfinished messages", "start/finish with LafStack"), ("continued channels", "ContinuedChannel, FatalChannel")],
  ["bytes written to the chosen ostream"],
  None, [("stack of unfinished message buffers", "one entry per message being assembled", "DebugObject_ThreadSpecificData")])
p("E04", "Switching on and off counts, nests and restores exactly",
  "Turning a channel or debug object off any number of times requires as many times on before it outputs again, and forcing it on and restoring the saved state brings back precisely the state before, for any properly nested sequence. Misuse - switching on a channel that is on, restoring after unbalanced switches, popping an empty stack, a label that is too long, more channels or debug objects than supported, writing from several threads to a stream without a lock, continuing or finishing a message that was not started - is reported and aborts the program rather than corrupting the count.",
  ["histories"], "all sequences of on, off, force-on and restore over several channels and objects",
  "No stable test; the others switch once or twice.",
  ["src/debug.cxx", "include/libcwd/Channel.inl.h", "include/libcwd/DebugObject.inl.h", "src/threading.cxx"],
  [("off counters and saved states", "Channel::off/on, DebugObject::force_on/restore")], ["whether statements produce output, is_on(), process exit status"])
p("E05", "Margin, marker and indentation behave as editable text with a stack",
  "Setting, appending, prepending, pushing and popping the margin or marker, and changing the indentation, always leaves them holding exactly the text those operations describe, of any length and for any byte content, and each push is undone by its pop. They affect only the prefix of messages written afterwards by the same thread on the same debug object.",
  ["histories", "inputs"], "all sequences of margin/marker/indent operations with strings of any length",
  "A non-stable test pushes and pops once with short strings.",
  ["include/libcwd/DebugString.h", "include/libcwd/DebugString.inl.h", "src/debug.cxx"],
  [("capacity-managed string and stack", "DebugString, DebugStringStackElement, push_margin/pop_margin")], ["c_str(), size(), the prefix of messages"])
p("E06", "Channel and object state of one thread never affects another",
  "Whether channels and debug objects are on, and margin, marker, colors, indentation and unfinished messages, belong to each thread separately: no sequence of operations in one thread changes what another thread outputs or how it is laid out, also when threads end. A new thread starts with every debug object off and with every channel off except those that are always on. Where threads write to one stream, a line left unfinished by one is marked as such before the other writes, and resumed with its own prefix.",
  ["schedules", "histories"], "all histories of up to several threads with operations interleaved in any order",
  "The one threaded test uses one fixed program and is not in the stable set.",
  ["src/threading.cxx", "src/debug.cxx", "include/libcwd/DebugObject_ThreadSpecificData.h"],
  [("thread-specific data for every channel and object", "LIBCWD_TSD, ThreadSpecificData")], ["per-thread output"])
p("E07", "Concurrent messages come out whole, once and in program order",
  "With a lock associated to the output stream, messages written at the same time by any number of threads appear each as one uninterrupted piece, each exactly once, and those of one thread in the order in which it wrote them. The lock is held whenever the stream is written to, is released afterwards, and is never released by a thread that does not hold it. This also holds while the application uses the same lock to write to the stream that the debug object reports, and while the stream and its lock are replaced: once that returned, the old stream is not used anymore. The threads never block each other for ever.",
  ["schedules"], "all interleavings of threads writing to one or several debug objects that share a stream",
  "The threaded test only looks at one schedule and needs an absent dependency.",
  ["src/debug.cxx", "include/libcwd/set_ostream.inl.h", "src/threading.cxx"],
  [("buffer per message, written under the user's lock", "BufferStream::writeto"), ("lock wrapper", "LockInterface")],
  ["the byte stream, and lock/unlock calls made on the user's lock object"])
p("E08", "Debug output leaves errno alone and reports the errno of the call",
  "A suppressed debug statement leaves errno alone, and the operands of a statement see the value that errno had before the statement, whatever message the statement interrupts or nests in, also when writing to the stream changes errno. A message with the error flag shows the symbolic name and text of the errno value (any number, also one that the system does not know) at the moment its last part started, however its operands or nested statements change errno.",
  ["inputs", "histories"], "all errno values x message trees x channel states",
  "No stable test; one fixed errno otherwise.",
  ENG, [("saving and restoring errno", "start / finish"), ("error text", "finish with error_cf, strerrno")], ["errno after the statement; the error suffix"])
p("E09", "Fatal messages are fully written and always end the program",
  "A fatal debug statement always writes its complete message, after which the process ends with the documented exit status, or aborts when a core dump was asked for; it does so whether or not the channel state, debug object state, nesting, buffering or number of threads would suppress ordinary output. No statement after it is executed, no exit handler or global destructor changes how it ends, and nothing that was written to that debug object before is lost, also when its stream is buffered and the fatal message goes elsewhere, and when several threads hit fatal errors at once, the program still terminates, with the complete message of the thread that ended it.",
  ["histories", "schedules", "fault_sequences"], "all engine states at the moment of the fatal statement: nesting, flushing, other threads writing",
  "No stable test ends a process through a fatal message.",
  ["src/debug.cxx", "include/libcwd/FatalChannel.h", "src/threading.cxx"],
  [("termination on the fatal channel", "finish with fatal_maskbit"), ("single terminating thread", "core_dump / claim of termination")], ["output and exit status of the process"])
p("E10", "Flushing happens exactly where it was requested",
  "The output stream is flushed for a message exactly if the message asked for it or flushing was requested for every message, where nested requests count and a request in a nested message also covers the message it interrupts. A message that did not ask for it and no counted request in force causes no flush.",
  ["histories"], "all sequences of flush requests, counted always-flush switches and messages",
  "One non-stable test calls flush once.",
  ENG, [("flush flag propagation and counter", "flush_cf, always_flush/restore in finish")], ["sync calls on the ostream buffer"])
p("E11", "The channel registry finds, orders and lists channels consistently",
  "Every registered channel can be found by any prefix of its label in any letter case; where several channels share the prefix, which one is found is always the last in label order, and an unknown prefix finds none. Iterating visits every channel exactly once in label order, and the list of channels shows each with its current state for the calling thread; labels in all messages are padded to one common width.",
  ["histories", "inputs"], "all sets of user channels with arbitrary labels created in any order, and all search strings",
  "Tests use a fixed set of channels.",
  ["src/debug.cxx", "include/libcwd/LibcwdForAllDebugChannels.h", "include/libcwd/Channel.h"],
  [("sorted channel vector", "Channel::initialize_channel"), ("prefix search", "find_channel"), ("listing", "list_channels_on")], ["find_channel result, iteration order, listing text"])
p("E12", "Each debug object writes only to its own stream, in its own state",
  "Every debug object writes all of its output and nothing else to the stream set for it last, and changing one debug object's stream, state, margin, or messages in progress never alters another's output. A message flagged for the error stream goes there and nowhere else, as do the messages nested in it, while a message that it interrupts is written to its own stream.",
  ["histories"], "all interleavings of operations over several debug objects and streams, including nested messages across objects",
  "No stable test has two debug objects.",
  ["src/debug.cxx", "include/libcwd/set_ostream.inl.h", "include/libcwd/DebugObject.h"],
  [("per-object state and stream", "DebugObject::set_ostream, cerr_cf")], ["bytes written per stream"])
p("E13", "Debug output works from before main until after it, and to the end of every thread",
  "Debug output, state changes and lookups behave as documented in every phase of a process: in constructors of static objects, in main, in destructors of static objects, in functions registered with atexit and in destructor functions, also while another thread is still running; and in every phase of a thread, including the destructors of its thread_local objects, whichever were made first. What is written in such a phase is written once, in order and with the state that the thread left behind; code that runs when the state of its thread is already gone writes nothing wrong and does not crash. A thread leaves nothing behind: the memory in use does not grow with the number of threads that came and went, whatever they did before they ended, and a new thread never inherits the state of one that ended. Functions resolve by name before main is reached and to their source line after that, until the very end.",
  ["histories", "schedules"], "all sequences of debug operations in all phases of a process and its threads",
  "No test runs debug code in a destructor or exit handler.",
  ["src/threading.cxx", "src/debug.cxx", "src/init_functions.cxx", "include/libcwd/private/ThreadSpecificData.h"],
  [("thread specific data that outlives thread_local objects", "threading.cxx: ThreadSpecificData, instance, cleanup"), ("objects that are never destructed", "DebugObject and Channel state, list of object files")], ["bytes written, exit status, memory in use"])
p("B01", "Every build option and compiler gives a library with the same behaviour",
  "With each documented option of the build changed (without location support, with internal consistency checks, with those of the threading code, and with the checked standard library), and whichever compiler (g++ or clang++) and level of optimisation it is built with, the library builds, programs that use its headers compile and link, and the properties of debug output, configuration, initialization, threads, demangling and loaded libraries hold as they do with the default options; the internal checks never fail for correct programs.",
  ["configurations", "histories"], "all build options and compilers x all inputs and histories of the properties D04, D05, U02, E03-E07, E09, E12, E13, L01, L03, R01, R03 and U06",
  "The tests only run with the default options.",
  ["config.h.in", "include/libcwd/config.h.in", "include/cwd_debug.h", "include/raw_write.h", "src/debug.cxx", "src/location.cxx", "src/utils/rcfile.cxx"],
  [("code that depends on CWDEBUG_LOCATION, CWDEBUG_DEBUG, CWDEBUG_DEBUGT and CWDEBUG_DEBUGOUTPUT", "all sources")], ["that it builds", "the observables of the properties named"])
p("B02", "A program built for another library is refused",
  "main_reached(), and with it init(), accepts exactly the programs that were compiled with the headers of the library that they run with: when the version or any build option that changes the interface differs, the program is stopped with a message that says that the version, or else that the configuration, does not match, before anything else happens; otherwise it runs normally.",
  ["configurations", "programs"], "all pairs of versions and options of headers and library",
  "The tests are always compiled with the headers of the library.",
  ["src/init_functions.cxx", "include/libcwd/config.h.in", "include/libcwd/debug.h"],
  [("version and configuration signature compiled into the program", "config_signature_header_c, get_config_signature_lib_c, main_reached")], ["exit status and message of the program"])
p("N01", "With debugging compiled out, debug code vanishes completely",
  "In a program compiled without debugging support, a debug statement in any statement context evaluates none of its arguments, which need not even be valid code, and leaves nothing behind: no reference to the library and no reference to anything else that is not there without it, so the program behaves as if debug statements were empty. Only the fatal statement remains: it writes its operands and a new line to the standard error stream, in order, and exits with failure, as a single statement in any context.",
  ["programs"], "all programs using the public macros in any statement context with any arguments",
  "One compile-only test with a fixed source.",
  ["nodebug.h", "debug.h", "include/libcwd/debug.h", "include/libcwd/cwds_debug.h"], [("empty macro definitions", "nodebug.h")], ["program output, exit status and undefined symbols of the object file"])
p("N02", "With debugging compiled in, a debug statement is one well-behaved statement in any context",
  "In a program compiled with debugging support, a debug statement can be put wherever a statement can (as the body of if, else, loops and labels without braces, in lambdas, templates, constructors, destructors and switch cases), with any operands and with any names of local variables in scope, and does not change how the surrounding code is parsed or executed, whether it is written as one macro, with the macros for the begin, the stream and the end of a statement, or as the entering of a scope, which indents until the end of that scope however it is left: its operands are evaluated once, in order, with the meaning that they have outside the statement (and, where the program defines a prelude for debug output, inside of that), when it is to be written and not at all when it is not, and what it writes is exactly the text of its operands. The control flags are evaluated exactly when the debug object is on.",
  ["programs"], "all programs using the public macros in any statement context, with any operands and local names, for any state of objects and channels, by both compilers with and without optimisation",
  "The tests use the macros in a few fixed places, always as whole statements.",
  ["include/libcwd/macro_Libcwd_macros.h", "include/libcwd/debug.h", "include/libcwd/LibcwdForAllDebugChannels.h", "include/libcwd/LibcwdForAllDebugObjects.h"], [("the statement macros", "macro_Libcwd_macros.h")], ["program output and exit status"])
p("R01", "The configuration file turns on exactly the channels it names",
  "Reading a configuration file, also when it is read again after it was changed, leaves every channel in the state its settings describe: the default (all on, or all off), then the channels_on, channels_off and channels_toggle lists applied in the order given, each mask matched against the channel names with * as wildcard and regardless of letter case, spacing, comments and blank lines; other settings (gdb, xterm, and those a class derived from RcFile handles) are passed on as given. In an override file the first channels_on starts from all channels off, and the first channels_off after a default of off starts from all channels on. Turning a channel on makes it on whatever its off count was, and every change, and every setting, is reported on channel RCFILE unless the file says to be silent. A line that cannot be understood, or a toggle without a default, ends the program with the file and line at fault; an unknown keyword or a repeated default is a warning and has no other effect.",
  ["inputs", "configurations"], "all configuration files over all keywords, masks and layouts, for any set of registered channels",
  "No stable test reads a configuration file.",
  ["src/utils/rcfile.cxx", "include/libcwd/RcFile.h", "src/utils/match.cxx", "libcwdrc"],
  [("line parser and per-channel matching", "RcFile::read / process_channels")], ["which channels are on afterwards; messages written; exit status"])
p("R02", "Configuration is found, overridden and controlled by environment as documented",
  "The configuration file that takes effect is the first that exists as a regular readable file of: the current directory, $HOME, the home directory in the password file, and, when no name was given in LIBCWD_RCFILE_NAME, the default file of the installation; when LIBCWD_RCFILE_OVERRIDE_NAME names a file that exists it is applied on top. When there is none, the program ends with a fatal error that explains where was looked. LIBCWD_PRINT_LOADING makes the loaded objects be reported at program start, and libraries that are opened later whatever is off, without a change of what is on, LIBCWD_NO_STARTUP_MSGS undoes that and makes nothing be written before main, each for every value including the empty one, and the core size limit is raised to its hard limit with a warning exactly when that is finite but not zero.",
  ["configurations"], "all combinations of existing files, directories and environment variables",
  "No test runs with more than one configuration.",
  ["src/utils/rcfile.cxx", "src/environ.cxx", "src/init_functions.cxx", "include/Environment.h"],
  [("search path and environment lookups", "RcFile::determine_rcfile_name, Environment")], ["channels on afterwards, output, exit status"])
p("R03", "Library and thread initialization set every state they document",
  "After init(), the debug object of the main thread is on and every channel is in the state that the configuration file describes. After init_thread(name, how) in a new thread, its debug object is on (off if debug_off was asked for, or if the main thread that is copied has it off), a channel is on exactly if it was on as configured (from_rcfile), is on in the main thread now (copy_from_main), or not at all (debug_off), whatever the names of the channels; how defaults to the value chosen for the program. The margin becomes the name, at most 15 characters of it padded to 16, or the thread id when there is no name, and the start of a named thread is announced on channel NOTICE. The stream gets a lock if it had none, and no other thread's state changes.",
  ["histories", "configurations"], "all configurations, channel names, thread names and ways of initialization, in any number of threads and any order relative to other debug output",
  "No stable test initializes the library.",
  ["src/init_functions.cxx", "include/libcwd/init_functions.h"], [("initialization helpers", "init, init_thread")], ["state of objects and channels afterwards"])
p("R04", "A debugger is attached with the configured commands, or it is reported why not",
  "attach_gdb() runs exactly the terminal command of the configuration file with %s replaced by the gdb command of that file and its arguments (no start-up files, a command file, the executable and the process), whatever either contains; the command file stops the debugger behind the call of attach_gdb(), releases the program and lets it continue. The program waits until it is released, then continues with its debug object in the state it had; this can be done more than once. A setting that is missing or too long ends the program with a fatal error that says so, and when the command ends without releasing the program that is reported, with its exit code unless the program itself waits for or ignores its children, followed by a core dump.",
  ["configurations", "histories"], "all values of the settings gdb and xterm, times until the debugger attaches and ways in which it fails, repeated attaching, and debug object states",
  "No test calls it: it would need a terminal and a debugger.",
  ["src/utils/attach_gdb.cxx", "src/utils/rcfile.cxx"], [("command composition and waiting for the hook", "attach_gdb")], ["arguments and command file of the debugger, when and how the program continues or ends"])
p("L01", "A code address resolves to its true source line and function",
  "For every address of code that was compiled with debug information the location names the line of the statement and the full path of its file, as given to the compiler or by a line directive, and the function it was written in, also when that was inlined; in the main program and in every shared library, whatever the compiler, language, optimisation level, version, compression or place of the debug information, linker and section layout. This also holds when code without debug information is linked with it: that, and all code before main() is reached, resolves to its object file and function if there is a symbol for it. An address outside every loaded object is unknown and keeps its value. Looking up the same address again gives the same place.",
  ["inputs", "programs"], "all addresses of all loaded objects, for all programs and compilation options, by a library of either compiler; split DWARF and debug information of only line tables are not covered",
  "The location tests are a few fixed programs and are not in the stable set.",
  ["src/dwarf.cxx", "src/location.cxx", "include/cwd_dwarf.h", "include/dwarf_symbol_ranges.h"],
  [("lookup of object file, compilation unit, function and line", "dwarf.cxx")], ["file(), line(), path, function name and object file of a location"])
p("L02", "Location objects are values: copies denote the same place, clear forgets",
  "A location that is copied, assigned or looked up again denotes the place it was made from (file, path, line, function, object file, whether it is known, and the address when nothing is known of it) for as long as the path lives. The path of a known location is released exactly once: by the location that owns it, when that is destroyed, cleared, assigned to or looked up again; ownership moves to a copy unless lock_ownership() was called for the original. A cleared or default constructed location is unknown, and no history of these operations leaks, frees twice or disturbs another location.",
  ["histories"], "all sequences of construction, copy, assignment, swap, lock, re-lookup, clear and destruction over known and unknown addresses",
  "One test copies a location once.",
  ["src/location.cxx", "include/libcwd/Location.h", "include/libcwd/Location.inl.h"], [("value semantics with owned file path", "Location")], ["accessors, live allocations, sanitizer reports"])
p("L03", "Loading and unloading libraries keeps lookups correct",
  "After any history of opening and closing shared libraries (by absolute and relative path and through links, with repeated handles, dependencies that are shared by other libraries, RTLD_NOLOAD, RTLD_NODELETE and libraries that can not be deleted, libraries whose constructors and destructors open others, and with changes of the current directory), an address inside a library that is loaded, also from its own constructor, resolves to that library, its source position if it has debug information and otherwise its function; and an address that is not inside any loaded object is reported as unknown, also when something else was loaded there before. Opening and closing returns what it returns without libcwd. The file, line and object file of a location that was found earlier stay valid after its library is unloaded.",
  ["histories"], "all sequences of loading and unloading several libraries, with repeated loads, dependencies and all load flags",
  "One non-stable test loads one library once.",
  ["src/dwarf.cxx"], [("wrapped dlopen and dlclose maintaining the list of object files", "dwarf.cxx: dlopen, dlclose, ObjectFileRegistry")], ["lookups after each step"])
p("L04", "Locations print in the format that was selected",
  "Printing a known location writes the name of the object file and a colon if show_objectfile is set, then the mangled function name and a colon if show_function is set, then the file name, or its full path if show_path is set, a colon and the decimal line number. A location in a loaded object of which the source position is not known is printed as object file, colon and function name, and any other one as '<unknown object file> (at ADDRESS)'. location_format() returns the previous format, only influences the calling thread, and a new thread starts with no flag set. A location prints the same when copied and when looked up by another thread, to a stream and as debug output.",
  ["configurations", "inputs", "histories"], "all format combinations x all kinds of locations x threads",
  "No stable test prints a location.",
  ["src/location.cxx", "include/libcwd/Location.h", "include/libcwd/Location.inl.h"], [("format flags", "location_format, operator<< for Location")], ["bytes written"])
p("L05", "Locations can be looked up by several threads at the same time",
  "Lookups of addresses by any number of threads at the same time, also the very first ones in an object file and while other threads open and close other libraries, give what a single thread gets: they do not crash, do not deadlock and find the true file, line, function and object file, and each thread prints them in its own format.",
  ["schedules"], "all interleavings of lookups, loads and unloads by several threads",
  "No test looks up locations in more than one thread.",
  ["src/dwarf.cxx", "src/location.cxx", "include/libcwd/private/ThreadSpecificData.h"], [("libdw access and object file registry shared by all threads", "dwarf.cxx: SymbolRange::lookup_location, ObjectFile::find_symbol, ObjectFile::realize_symbols")], ["lookups", "crashes", "deadlocks"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
