"""The checks: which harness decides which property."""
ENGINE = ["operands do not throw, and do not change the debug object that they are written to other than through nested debug output",
          "channels and debug objects are never destructed; at most 8 debug objects and 256 channels",
          "debug objects are switched on and off in pairs within continued output",
          "streams are not replaced and cerr_cf is not used while several threads write"]

def _engine(name, variant="plain", quick=None):
    if variant == "asan":
        # The library is instrumented in full, the harness (that is ten times its size) for addresses only.
        return {"harness": name, "variant": "asan", "cflags": ["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], "quick": 5000, "thorough": 200000, "quick_cap": 120, "thorough_cap": 600}
    return {"harness": name, "quick": quick or 60000, "thorough": 2000000, "quick_cap": 120, "thorough_cap": 900}

def _option(variant, name, quick, extra=()):
    # That this does not build, while it builds with the default options, is a violation.
    return {"harness": name, "variant": variant, "extra": list(extra), "option": 1, "quick": quick, "thorough": quick * 30, "quick_cap": 60, "thorough_cap": 300}

CHECKS = {
    "D01": {"stages": [{"harness": "d01", "variant": "asan"}]},
    "D02": {"stages": [{"harness": "d02"}]},
    "D03": {"stages": [{"harness": "d03"}]},
    "D04": {"stages": [{"harness": "d04"}]},
    "D05": {"stages": [{"harness": "d05"}]},
    "U01": {"stages": [{"harness": "u01", "variant": "asan"}]},
    "U02": {"stages": [{"harness": "u02", "variant": "asan"}]},
    "U03": {"stages": [{"harness": "u03"}]},
    "U04": {"stages": [{"harness": "u04"}]},
    "U05": {"stages": [{"harness": "u05", "variant": "asan"}]},
    "U06": {"stages": [{"harness": "u06", "variant": "asan"}]},
    "U07": {"stages": [{"harness": "u07", "quick": 8000, "thorough": 400000, "quick_cap": 60, "thorough_cap": 600, "workers": 4},
                       {"harness": "u07", "variant": "tsan", "quick": 2500, "thorough": 120000, "quick_cap": 60, "thorough_cap": 900, "workers": 4}]},
    "E01": {"stages": [_engine("e01")], "assumptions": ENGINE},
    "E02": {"stages": [_engine("e02"), _engine("e02", "asan")], "assumptions": ENGINE},
    "E03": {"stages": [_engine("e03"), _engine("e03", "asan")], "assumptions": ENGINE},
    "E04": {"stages": [_engine("e04"), _engine("e04", "asan")], "assumptions": ENGINE},
    "E05": {"stages": [_engine("e05"), _engine("e05", "asan")], "assumptions": ENGINE},
    "E06": {"stages": [_engine("e06", quick=40000), _engine("e06", "asan")], "assumptions": ENGINE},
    "E07": {"stages": [{"harness": "e07", "quick": 20000, "thorough": 600000, "quick_cap": 120, "thorough_cap": 900, "workers": 6},
                       {"harness": "e07", "variant": "tsan", "quick": 4000, "thorough": 150000, "quick_cap": 120, "thorough_cap": 900, "workers": 6}],
            "assumptions": ["the stream and its lock are only replaced together, with the documented two-argument form"]},
    "E08": {"stages": [_engine("e08")], "assumptions": ENGINE},
    "E09": {"stages": [_engine("e09", quick=40000), _engine("e09", "asan"),
                       {"harness": "e09t", "quick": 12000, "thorough": 400000, "quick_cap": 120, "thorough_cap": 900, "workers": 6}],
            "assumptions": ENGINE},
    "E10": {"stages": [_engine("e10")], "assumptions": ENGINE},
    "E11": {"stages": [_engine("e11")], "assumptions": ENGINE},
    "E12": {"stages": [_engine("e12"), _engine("e12", "asan")], "assumptions": ENGINE},
    "E13": {"stages": [{"harness": "e13", "extra": ["-g1"], "quick": 16000, "thorough": 400000, "quick_cap": 120, "thorough_cap": 900},
                       {"harness": "e13", "variant": "asan", "quick": 800, "thorough": 40000, "quick_cap": 120, "thorough_cap": 600}],
            "assumptions": ["the process ends with exit() or a return from main"]},
    "B01": {"stages": [_option("noloc", "e03", 16000), _option("noloc", "r03", 12000, ["-g1"]), _option("noloc", "r01", 16000), _option("noloc", "e12", 8000), _option("noloc", "e09", 8000),
                       _option("selfcheck", "e03", 16000), _option("selfcheck", "e06", 8000), _option("selfcheck", "l03", 4000, ["-g"]),
                       _option("selfcheckt", "e07", 8000), _option("selfcheckt", "e04", 8000), _option("selfcheckt", "e13", 3000, ["-g1"]), _option("selfcheckt", "r03", 6000, ["-g1"]),
                       _option("stl", "e03", 12000), _option("stl", "r01", 16000), _option("stl", "e05", 8000), _option("stl", "l03", 2000, ["-g"]), _option("stl", "u06", 12000),
                       _option("clang", "e03", 8000), _option("clang", "e07", 4000), _option("clang", "e09", 4000), _option("clang", "r01", 12000), _option("clang", "r03", 4000, ["-g"]), _option("clang", "l03", 2000, ["-g"]), _option("clang", "d04", 40000), _option("clang", "d05", 40000), _option("clang", "u02", 40000),
                       _option("release", "e03", 8000), _option("release", "e07", 4000), _option("release", "e06", 4000), _option("release", "r03", 4000, ["-g1"]), _option("release", "l03", 2000, ["-g"])],
            "assumptions": ["the configuration of the build system is replaced by one that answers the same for this machine"]},
    "B02": {"stages": [{"harness": "b02", "quick": 300, "thorough": 20000, "quick_cap": 120, "thorough_cap": 900}] +
                      [{"harness": "b02", "variant": v, "option": 1, "quick": 100, "thorough": 8000, "quick_cap": 60, "thorough_cap": 600} for v in ("noloc", "selfcheckt")]},
    "R01": {"stages": [{"harness": "r01", "quick": 80000, "thorough": 3000000, "quick_cap": 120, "thorough_cap": 900}]},
    "R02": {"stages": [{"harness": "r02", "quick": 40000, "thorough": 1500000, "quick_cap": 120, "thorough_cap": 900}],
            "assumptions": ["the password file is replaced by a stand-in, that the harness controls", "files are not unreadable for reasons of permission (the checks run as root)"]},
    "R03": {"stages": [{"harness": "r03", "extra": ["-g1"], "quick": 40000, "thorough": 1500000, "quick_cap": 120, "thorough_cap": 900}],
            "assumptions": ["init() is called once and init_thread() once at the start of a thread", "channel names are unique"]},
    "R04": {"stages": [{"harness": "r04", "quick": 1500, "thorough": 60000, "quick_cap": 200, "thorough_cap": 900}],
            "assumptions": ["the terminal and the debugger are scripts; the debugger clears the hook by means of a signal to the program", "sleeping takes 1/25 of its time", "the xterm setting has one % that is followed by s"]},
    "N01": {"stages": [{"harness": "n01", "quick": 240, "thorough": 8000, "quick_cap": 150, "thorough_cap": 900}], "assumptions": ["control expressions and operands have no top level comma outside parentheses in the control expression"]},
    "N02": {"stages": [{"harness": "n02", "quick": 240, "thorough": 6000, "quick_cap": 150, "thorough_cap": 900}], "assumptions": ["local variables are not named libcw_do, debugChannel, debugObject or dc where the macros document these names"]},
    "L01": {"stages": [{"harness": "l01", "libs": ["-ldw"], "quick": 320, "thorough": 20000, "quick_cap": 240, "thorough_cap": 1500},
                       {"harness": "l01", "variant": "clang", "libs": ["-ldw"], "quick": 100, "thorough": 6000, "quick_cap": 120, "thorough_cap": 600}],
            "assumptions": ["the debug information is right: where llvm-symbolizer reads the same from it the compiler is blamed", "no split DWARF"]},
    "L02": {"stages": [{"harness": "l02", "extra": ["-g"], "quick": 60000, "thorough": 4000000, "quick_cap": 120, "thorough_cap": 900},
                       {"harness": "l02", "variant": "asan", "quick": 30000, "thorough": 2000000, "quick_cap": 120, "thorough_cap": 900}],
            "assumptions": ["lock_ownership() is called for the owner of the path", "a location is not read after the owner of its path gave it up"]},
    "L03": {"stages": [{"harness": "l03", "extra": ["-g"], "quick": 8000, "thorough": 400000, "quick_cap": 120, "thorough_cap": 900},
                       {"harness": "l03", "variant": "asan", "quick": 3000, "thorough": 100000, "quick_cap": 120, "thorough_cap": 900}],
            "assumptions": ["libraries are opened with a path that contains a slash, in the default namespace", "handles are only closed once"]},
    "L05": {"stages": [{"harness": "l05", "quick": 10000, "thorough": 500000, "quick_cap": 120, "thorough_cap": 900, "workers": 4},
                       {"harness": "l05", "variant": "asan", "quick": 1500, "thorough": 50000, "quick_cap": 120, "thorough_cap": 600, "workers": 4}],
            "assumptions": ["addresses in a library are not looked up by other threads while its last handle is being closed"]},
    "L04": {"stages": [{"harness": "l04", "extra": ["-g"], "quick": 30000, "thorough": 2000000, "quick_cap": 120, "thorough_cap": 900}]},
}
TECH = {
    "D01": ("property-based fuzzing: mutated, spliced, truncated and adversarially nested manglings under AddressSanitizer and "
            "UBSan with the input at the end of its heap block and an allocation budget as termination oracle",
            "searches; cannot show absence. Long inputs whose output explodes through back references are discarded and counted."),
    "D02": ("property-based testing: names invalid by construction, valid names and mutations against the relations "
            "pass-through, append = prior content + result, and result independent of history",
            "invalidity is decided by construction plus the system demangler rejecting what it accepted before the damage"),
    "D03": ("property-based testing: random C++ type trees, mangled by an independent mangler with ABI substitutions, compared with "
            "an independent printer; generator cross-checked per case with the system demangler",
            "C++98 type grammar up to the generator's nesting depth"),
    "D04": ("property-based testing: random entities, mangled by an independent mangler with ABI substitutions, compared with an "
            "independent printer; generator cross-checked per case with the system demangler",
            "C++98 encodings up to the generator's nesting depth"),
    "D05": ("property-based testing: literals of every type and bit pattern class, read back from the demangled text and compared "
            "with the encoded value",
            "random sample of the 2^64 double patterns, stratified by class"),
    "U01": ("property-based testing against a dynamic-programming reference matcher, with the mask at the end of its heap block "
            "under AddressSanitizer or in front of other text", "masks of up to 14 characters with at most 6 asterisks"),
    "U02": ("property-based testing against an independent escaper, over random buffers and stream states", "sampled buffers; all 256 bytes are reached"),
    "U03": ("property-based testing against the C library's own errno names, over histories of queries", "all numbers up to 140 are reached; others sampled"),
    "U04": ("property-based testing with generated C++ programs (random declarations and type expressions) whose expected names come "
            "from an independent mangler and printer and whose sizes come from the compiler", "C++98 types up to the generator's nesting depth"),
    "U05": ("stateful property-based testing: random operation histories against an ownership model, with destruction log and "
            "AddressSanitizer", "histories of up to 60 operations on up to 7 pointers"),
    "U06": ("stateful property-based testing: random insertion histories against a winner-per-address reference, checked after "
            "every insertion", "up to 24 insertions in a window of up to 400 addresses"),
    "E01": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine", "histories of up to about 100 statements, 8 channels and 2 objects"),
    "E02": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; every control flag combination", "histories of up to about 100 statements; a second stage runs under AddressSanitizer"),
    "E03": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; nested, continued and finished messages", "nesting up to depth 6; a second stage runs under AddressSanitizer"),
    "E04": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; switch counts, forced states, and misuse that must abort", "histories of up to about 100 switches"),
    "E05": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; text of any byte content", "histories of up to about 100 operations; a second stage runs under AddressSanitizer"),
    "E06": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; operations of up to four real threads in every generated order", "threads run one operation at a time; E07 covers simultaneous ones"),
    "E07": ("property-based testing of random per-thread programs on really concurrent threads with randomly placed delays: lock discipline monitored at "
            "every stream and lock call, output decomposed per thread and compared with its program order, and ThreadSanitizer as second oracle",
            "schedules are sampled, not enumerated"),
    "E08": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; errno observed at the first operand, in the text of error_cf, and after suppressed statements", "histories of up to about 100 statements"),
    "E09": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; ends in a fatal statement in any engine state, plus concurrent fatal statements of really concurrent threads", "schedules are sampled"),
    "E10": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; every sync call on the stream buffer", "histories of up to about 100 statements"),
    "E11": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; channels created at any point, searches, iterations and listings", "up to 12 user channels per history"),
    "E12": ("stateful property-based testing: random trees and histories of debug statements and state changes, executed for real in a forked process and compared byte for byte with an executable reference model of the engine; several objects and streams and std::cerr", "up to 3 objects"),
    "R01": ("property-based testing: generated configuration and override files over random sets of channels, read for real in a forked process and compared with an executable reference model: the on/off count of every channel, all messages, and the exit status", "files of up to 10 lines, up to 8 user channels"),
    "R02": ("property-based testing: generated combinations of files, directories and environment variables against an executable reference model of the search, with a distinguishing setting in every file; program starts under every startup environment", "core limits other than zero need the privilege to raise them"),
    "U07": ("property-based testing: random scripts for several threads in a fresh process per case, compared with the answers for a single thread and the known names and sizes; also under ThreadSanitizer", "up to 6 threads of 13 steps; schedules as the machine gives them"),
    "E13": ("property-based testing: a random plan of debug output and state changes in every phase of a process and of its threads (before main, in destructors of thread_local and static objects, exit handlers and destructor functions), executed by a fresh process and compared with a model of what is written; memory in use after many threads is measured", "plans of up to 6 threads"),
    "B01": ("property-based testing: the stateful searches of the engine, the configuration file, initialization, threads, demangler output and loaded libraries against their reference models, with the library and the searches built with every documented option changed, by clang++ and with full optimisation", "the options are changed in four combinations"),
    "B02": ("property-based testing: random programs compiled against headers of another version or configuration and linked with the library, which must refuse exactly those that differ, and say what differs", "versions differ by small and by large amounts; all combinations of the options"),
    "R03": ("stateful property-based testing: init() with generated configuration files, followed by random histories of thread starts with init_thread(), one at a time and at once, channels created later, and state changes; after every step the state of every thread is compared with a reference model", "up to 6 threads and 14 steps; simultaneous starts are sampled"),
    "R04": ("property-based testing: generated gdb and xterm settings, including ones around the length limits, with stand-ins for terminal and debugger that record how they were started and attach, exit or die after a random time; arguments, command file, continuation, reports and state are compared with what the settings say", "the debugger itself is not run"),
    "N01": ("property-based testing: generated programs with debug statements (also of garbage) in every statement context, compiled without CWDEBUG by g++ and clang++ and compared with an interpreter of the program, and in symbols with the same program without the statements", "programs of up to 12 functions"),
    "N02": ("property-based testing: generated programs with debug statements in every statement context as one macro or in parts, scopes that are entered, operators of a prelude, and local variables named after every identifier in the macros, compiled with CWDEBUG by g++ and clang++, run against the library and compared with an interpreter of the program", "programs of up to 20 functions"),
    "L01": ("property-based testing: random programs of several objects, compilers, languages, debug formats and linkers, in which every call site knows its own place; random other addresses are compared with what llvm-symbolizer reads from the same files", "programs of up to 3 objects and 9 compilation units"),
    "L02": ("stateful property-based testing: random histories of operations on locations against a model of place and ownership, counting the paths that are allocated and under AddressSanitizer", "histories of up to 44 operations on 6 locations of 17 kinds of addresses"),
    "L04": ("stateful property-based testing: random histories of format changes and prints of all kinds of locations by several threads against an independent formatter", "histories of up to 32 operations in 4 threads; the threads take turns"),
    "L03": ("stateful property-based testing: random histories of dlopen and dlclose of 13 libraries that depend on each other, with lookups after each step checked against what the loader reports to be loaded, the sources of the libraries, and earlier lookups; also under AddressSanitizer", "histories of up to 32 operations"),
    "L05": ("property-based testing with random scripts of lookups, loads and unloads run by real threads in a fresh process per case, against the sources of the generated libraries; also under AddressSanitizer", "up to 6 threads, schedules as the machine gives them; ThreadSanitizer is not usable because libdw and the loader are not instrumented"),
}
