"""The explorations behind each property: which program, against which build of the library."""

SAN = "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
VARIANTS = {
    "plain-on": {"ext": True},
    "plain-off": {"ext": False},
    "asan-on": {"ext": True, "flags": SAN},
    "asan-off": {"ext": False, "flags": SAN},
    "zero-on": {"ext": True, "flags": "-fPIC -ftrivial-auto-var-init=zero"},
    "zero-off": {"ext": False, "flags": "-fPIC -ftrivial-auto-var-init=zero"},
    "pattern-on": {"ext": True, "flags": "-fPIC -ftrivial-auto-var-init=pattern"},
    "pattern-off": {"ext": False, "flags": "-fPIC -ftrivial-auto-var-init=pattern"},
    "example-on": {"ext": True, "targets": ["mshio", "msh_inspect"]},
    "example-off": {"ext": False, "targets": ["mshio", "msh_inspect"]},
    # every basic block of the library is a call to src/c21.cpp
    "cost-on": {"ext": True, "libflags": "-fPIC -fsanitize-coverage=trace-pc", "cmake": ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"]},
    # every memory access of the library is a call to src/interleave.h
    "sched-on": {"ext": True, "clang": True, "libflags": "-fPIC -fsanitize=thread"},
    "sched-off": {"ext": False, "clang": True, "libflags": "-fPIC -fsanitize=thread"},
}

CHECKS = {}


def check(pid, level, technique, note, parts, **kw):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, parts=parts, **kw)


COMMON = ["x86-64 Linux, 64-bit size_t, little endian", "gcc 13 / clang 18 and libstdc++ are correct",
          "values and sizes outside the stated alphabets behave like those inside"]

check("C01", "model_checking", "deviation-bounded exhaustive enumeration of specifications on the real save and load code",
      "Exhaustive within the bounds: every field x alphabet of a rich specification, every pair of deviations of a small one, every list length of the sweep, every string up to a length, all section shapes and all element types; each round trip runs on the real library and is compared bit by bit. Assumes nothing outside the alphabets behaves differently.",
      [dict(exe="c01", src="c01.cpp", lib="plain-off"), dict(exe="c01x", src="c01.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON)

check("C02", "model_checking", "deviation-bounded exhaustive enumeration of specifications on the real save and load code",
      "Same enumeration as C01 with 2.2 files and a flat projection as the oracle, plus all element block sequences up to 3 blocks.",
      [dict(exe="c02", src="c02.cpp", lib="plain-off"), dict(exe="c02x", src="c02.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON)

check("C03", "model_checking", "exhaustive enumeration of specifications; each saved file is validated by an independent strict decoder",
      "Every file of the enumerated family (both versions, both encodings, both builds) is decoded by a decoder that shares no code with the library and compared with the content. The decoder is the trusted part.",
      [dict(exe="c03", src="c02.cpp", lib="plain-off"), dict(exe="c03x", src="c02.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON + ["strings with quotes or backslashes use backslash escapes (the documentation defines none)"])

check("C04", "model_checking", "exhaustive enumeration of contents x layout freedoms of an independent encoder, loaded by the real code",
      "Files are written by an encoder that shares no code with the library; every content deviation in plain layout and every layout deviation (separators, line ends, number spellings, section order, record grouping, tag lists) within the bound.",
      [dict(exe="c04", src="c04.cpp", lib="plain-off"), dict(exe="c04x", src="c04.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON)

check("C06", "model_checking", "exhaustive enumeration of 2.2 element and node sequences, grouped by the real loader, against a reference grouping model",
      "All sequences up to the stated length over alphabets of types, entities, physical tags and sparse node tags; the cost is measured by counting allocation.",
      [dict(exe="c06", src="c06.cpp", lib="plain-off")], assumptions=COMMON)

check("C05", "model_checking", "explicit-state exploration to closure of the graph of format conversions, executed by the real save and load code",
      "For each specification of a bounded family, all states reachable by any sequence of conversions to the four formats are explored until no new state appears, so chains of every length are covered; the specification family is bounded.",
      [dict(exe="c05", src="c05.cpp", lib="plain-off"), dict(exe="c05x", src="c05.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON)


def _so(kind, ext):
    return dict(exe="load-%s-%s.so" % (kind, ext), src="loadso.cpp", lib="%s-%s" % (kind, ext), cxx=["-fvisibility=hidden"],
                link=["-shared", "-Wl,--exclude-libs,ALL", "-Wl,-Bsymbolic"])


check("C07", "model_checking", "exhaustive enumeration of inputs (demand-driven input trees, damaged fields and bytes) run on sanitized and differently initialised builds",
      "Every answer sequence to what the loader asks for up to a horizon, every pair of damaged fields of small files, every value of every byte of them, all short token and character strings; each under ASan and UBSan and under two builds whose uninitialised memory holds different values. Single allocations above 4 MiB fail.",
      [dict(exe="c07", src="c07.cpp", lib="asan-on", aux=[_so("zero", "on"), _so("pattern", "on")], link=["-ldl"]),
       dict(exe="c07x", src="c07.cpp", lib="asan-off", aux=[_so("zero", "off"), _so("pattern", "off")], link=["-ldl"], thorough_only=True)],
      assumptions=COMMON + ["memory and time proportional to the counts a file declares are allowed; a failed allocation counts as an error report"])

check("C08", "fault_enumeration", "exhaustive enumeration of every prefix and every damaged field of every file of a bounded family, loaded by the real code",
      "Every cut position of every file of the family (4 formats, several writers, all section combinations, one or more count deviations); every numeric text field replaced by non-numbers; sections that end early; damaged markers and headers. Files outside the family are not covered.",
      [dict(exe="c08", src="c08.cpp", lib="plain-off"), dict(exe="c08x", src="c08.cpp", lib="plain-on", thorough_only=True)],
      rule="an evaluation is one damaged file loaded; it is non-trivial when the damage lies inside a section, its markers or the header (counted by distinct file content)", assumptions=COMMON)

check("C09", "model_checking", "exhaustive enumeration of boundary values of every rejecting field, against an accept/refuse model, on load and on save",
      "All versions d.d and malformed ones, all data sizes of a range, endianness marks, element type numbers of a wide range in every position and format, entities in 2.2, integer tag counts, and tags around 2^31, 2^32 and 2^64 in every field; accepted inputs must also hold the right values.",
      [dict(exe="c09", src="c09.cpp", lib="plain-off"), dict(exe="c09x", src="c09.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON)

check("C10", "fault_enumeration", "exhaustive enumeration of failing bytes, failing flushes, file size limits and answers of every system call of a save",
      "Streams fail at every byte in four ways; files stop growing at every byte (a limit of the system, independent of how the file is written); every write and close call of a save is answered by success, short transfer, interruption or failure with a bounded number of deviations.",
      [dict(exe="c10", src="c10.cpp", lib="plain-off", link=["-ldl"]), dict(exe="c10x", src="c10.cpp", lib="plain-on", link=["-ldl"], thorough_only=True)],
      rule="an evaluation is one save against a destination with a fault plan; it is non-trivial when a fault was delivered (counted by distinct content and plan)", assumptions=COMMON + ["libstdc++ writes files through write, writev and fclose (only the system call spaces depend on it)"])

check("C11", "fault_enumeration", "exhaustive enumeration of deliveries (pieces, splits) and of read errors at every byte and system call, on the real loader",
      "Every piece size, every split and (small files) every pair of splits, demand-driven piece sizes with a bounded number of deviations, from a stream that cannot seek; a read error at every byte of every file, by stream and by name; pipes; damaged files too.",
      [dict(exe="c11", src="c11.cpp", lib="plain-off", link=["-ldl", "-lpthread"]), dict(exe="c11x", src="c11.cpp", lib="plain-on", link=["-ldl", "-lpthread"], thorough_only=True)],
      rule="an evaluation is one file loaded under one delivery or fault plan; it is non-trivial when it is not delivered in one piece or a fault was delivered (counted by distinct content and plan)", assumptions=COMMON + ["libstdc++ reads files through read (only the file-errors and file-calls spaces depend on it)"])

check("C13", "model_checking", "exhaustive enumeration of integers against a table written from the documentation, and of type sequences through load and save",
      "Thorough: every one of the 2^32 integers. Quick: 200001 integers around zero, 16 slices of 2^15 integers at the ends of the range and around powers of two, and all patterns whose low bits look like a type. Every type, and every ordered pair of types, is read and written in every format against an independent codec.",
      [dict(exe="c13", src="c13.cpp", lib="plain-off")], assumptions=COMMON)

check("C12", "model_checking", "exhaustive enumeration of inconsistencies injected into consistent specifications, against a reference predicate",
      "Every field and list of several specifications deviates in every listed way, singly, in pairs and (thorough) in triples on the small one; the verdict of the sanitized library is compared with a predicate written from the documentation. Accepted specifications are saved and loaded.",
      [dict(exe="c12", src="c12.cpp", lib="asan-off"), dict(exe="c12x", src="c12.cpp", lib="asan-on", thorough_only=True)], assumptions=COMMON)

check("C14", "model_checking", "deviation-bounded exhaustive enumeration of locales and stream formatting states around the real load and save",
      "all triples (thorough: quadruples) of deviations among base, float format, adjustment, seven flags, precision, width, fill, the stream's and the global locale (numpunct, num_put, num_get and ctype facets, and named locales compiled for the run), for every format, on success and on five kinds of failing calls.",
      [dict(exe="c14", src="c14.cpp", lib="plain-off", link=["-ldl"]), dict(exe="c14x", src="c14.cpp", lib="plain-on", link=["-ldl"], thorough_only=True)],
      assumptions=COMMON + ["a stream and its buffer have the same locale before the call"])

check("C16", "model_checking", "exhaustive enumeration of operation histories on real files against a model that maps paths to bytes",
      "All histories of save, load, remove and overwrite up to length 4 (thorough: 5) on two paths with the file contents compared after every step; every length of previous content; file lengths around buffer sizes; every damaged byte; kinds of names and of paths that cannot be opened.",
      [dict(exe="c16", src="c16.cpp", lib="plain-off", link=["-ldl"]), dict(exe="c16x", src="c16.cpp", lib="plain-on", link=["-ldl"], thorough_only=True)], assumptions=COMMON)

check("C17", "model_checking", "exhaustive enumeration of spline lists through both builds of the real library in one process",
      "All numbers of control points and knots up to a bound, weights, every field over a large alphabet, pairs of deviations, section presence, adversarial bytes and section orders; each case is round tripped, decoded independently, loaded by a build without the extension, and saved by that build and loaded back.",
      [dict(exe="c17", src="c17.cpp", lib="plain-on", aux=[_so("zero", "off")], link=["-ldl"])], assumptions=COMMON + ["binary spline data does not contain the end marker of its own section"])

check("C18", "model_checking", "exhaustive enumeration of inserted sections (names, bodies, positions) loaded by the real code and compared with the file without them",
      "Every name and body of an adversarial alphabet at every position, pairs of sections, every token sequence up to a length, every pair of bytes around the markers, body lengths around powers of two, in files of every format and of three writers.",
      [dict(exe="c18", src="c18.cpp", lib="plain-off"), dict(exe="c18x", src="c18.cpp", lib="plain-on", thorough_only=True)], assumptions=COMMON + ["the body of an unsupported section does not hold its own end marker followed by white space"])


def _sched(exe, ext, **kw):
    so = "c15-%s.so" % ext
    return dict(exe=exe, src="c15.cpp", lib="sched-" + ext, nolib=True, aux=[dict(exe=so, src="empty.cpp", lib="sched-" + ext, whole=True, link=["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"])],
                link=["-rdynamic", "@BUILD@/" + so, "-Wl,-rpath,@BUILD@", "-ldl", "-lpthread"], **kw)


check("C15", "model_checking", "exhaustive enumeration of call histories, and of thread interleavings of the real code under a controlled scheduler, with happens-before race detection",
      "All histories up to a length over successful and failing calls of every kind; two threads with every single preemption at every memory access and function entry, further preemptions at stream operations and shared accesses; every result is compared with that of the call alone in a fresh process. The library is compiled with -fsanitize=thread against our own runtime, so accesses inside libstdc++ are not scheduling points.",
      [_sched("c15x", "on"), _sched("c15", "off", thorough_only=True)], assumptions=COMMON + ["code inside libstdc++ and libc runs without interruption (stream operations on the caller's buffer excepted)"])

check("C19", "model_checking", "exhaustive enumeration of attribute assignments and function calls of the real binding source, compiled against a stand-in for nanobind that records what it registers",
      "python/pymshio.cpp itself is compiled; every class, attribute and value of an alphabet, every sequence of assignments up to length 2 (thorough: 3), every string form and every function, against a field table written from MshSpec.h. nanobind's own conversions between Python and C++ are not part of it (nanobind is not available offline).",
      [dict(exe="c19", src="c19.cpp", lib="plain-off", opt="-O0", cxx=["-I@HERE@/src/py_stub", '-DPYMSHIO="@REPO@/python/pymshio.cpp"', '-DPYPACKAGE="@REPO@/python/mshio/__init__.py"'], link=["-ldl", "-lpthread"])],
      assumptions=COMMON + ["nanobind's def_rw, def and casts do what its documentation says", "a Python program sees copies of lists, as nanobind documents"])

check("C20", "model_checking", "exhaustive enumeration of files, each inspected by the real example program, against the content the file was written from",
      "The built program is run as a process on every file of the family (every field and length of a rich file, pairs of deviations of a small one, every subset of sections, all element types) in the four formats; its output is read back as a sequence of numbers and names, the copy is loaded, and every prefix and every damaged field of small files must not be reported as success.",
      [dict(exe="c20", src="c20.cpp", lib="example-off", link=["-ldl"]), dict(exe="c20x", src="c20.cpp", lib="example-on", link=["-ldl"], thorough_only=True)],
      assumptions=COMMON + ["floating point values are compared to the precision printed"])


check("C21", "model_checking", "exhaustive enumeration of kinds of content and of pairs and triples of them, at two sizes, with the steps of the real code counted",
      "The library is compiled so that every basic block counts a step; bytes copied, compared, scanned, allocated, read and written count too. Every kind of content, every pair (and triple of those that refer to each other), in several numberings and in the four formats, and every kind and pair of unusual file content, grows by a factor of 8 to 128, and cost and peak memory may grow by at most 3 times that. Every call on small content, cut at or damaged in every byte, is repeated and may not keep memory. Finite sizes stand for all sizes.",
      [dict(exe="c21", src="c21.cpp", lib="cost-on", nolib=True, aux=[dict(exe="c21-on.so", src="empty.cpp", lib="cost-on", whole=True, link=["-shared", "-Wl,-Bsymbolic", "-Wl,-z,now"])],
            link=["-rdynamic", "@BUILD@/c21-on.so", "-Wl,-rpath,@BUILD@", "-ldl", "-lpthread"])],
      assumptions=COMMON + ["tags are not chosen to collide in the hash tables of libstdc++", "what is not linear up to logarithms at the sizes explored shows it there"])
