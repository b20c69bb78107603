"""Per-check settings: how it is built and what its evidence says about it."""
COMMON_ASSUMPTIONS = [
    "JSON and CBOR are compiled against stand-ins for yyjson and jsoncons (stubs/): the originals are not in this sandbox. The stand-ins implement only what zerialize calls.",
    "Memory errors and undefined behaviour are observed by ASan and UBSan; messages are held in memory of exactly their size.",
]
CHECKS = {}


def check(cid, rule, **kw):
    CHECKS[cid] = dict(rule=rule, **kw)


check("C01", "A case is a value tree (scalars at representation boundaries, strings and blobs of boundary lengths, arrays and maps, nesting up to 150, "
      "containers up to 65537 elements) written and read back through one protocol. Non-trivial: the root is an array or a map, or the part tests scalars.",
      split=5)

check("C02", "A case is a value, a source protocol and a chain of one to five destination protocols (or a nesting depth up to 20000); after every translation the whole value is compared with the model. "
      "Non-trivial: the value is an array or a map, or the case tests nesting.", split=5)

check("C03", "A case is a number (or an array, a map or a block of 256 consecutive numbers) written or hand-encoded in one wire width; all eight integer accessors and both floating-point accessors are compared with exact arithmetic. "
      "Non-trivial: the value is a number.", split=5, technique="property-based testing: generated numbers against exact arithmetic, shrinking")
check("C04", "A case is a value tree or a map of confusable keys; every predicate, every accessor of another kind, absent keys derived from present ones, and out-of-range indices are tried at every node. "
      "Non-trivial: the value has more than one node.", split=5, technique="property-based testing: generated values and wrong accesses against a model, shrinking")

check("C05", "A case is a byte string: random bytes, a valid message (of the library's or another writer's layout) with one to four mutations (bit flips, boundary values in offset and length fields, tags, truncation, extension, copied references), "
      "every prefix of a message, or random references under a valid header; all read operations are compared with an independent decoder of the format. Non-trivial: the header is valid, so that values are examined.",
      optional=False, technique="structured fuzzing: mutated and random messages, differential against a reference decoder, under ASan/UBSan")

check("C06", "A case is a byte string: random markers, a valid message (library's or any-width encoding) with one to four mutations (bit flips, markers, boundary lengths and counts, insertion, deletion, truncation), every prefix of a message, "
      "a header with too little behind it, or up to 200000 nested containers; all read operations are compared with an independent decoder. Non-trivial: the bytes begin a string, a blob or a container.",
      optional=False, technique="structured fuzzing: mutated and random messages, differential against a reference decoder, under ASan/UBSan")

check("C07", "A case is a byte string: random initial bytes, a valid message (library's or any-form encoding, chunked strings included) with one to four mutations (bit flips, initial bytes, boundary lengths, stray breaks and tags, insertion, deletion, truncation), every prefix of a message, "
      "a header with too little behind it, or up to 200000 nested containers; all read operations are compared with an independent decoder. Non-trivial: the bytes begin a string, a blob or a container.",
      technique="structured fuzzing: mutated and random messages, differential against a reference decoder, under ASan/UBSan")

check("C08", "A case is a value tree written with any inline-string threshold and decoded by an independent implementation of ZERA.md, or laid out by an independent encoder that makes every choice the format leaves open (inline or arena strings, payload order, gaps, padding, shared payloads) and read by the library. "
      "Non-trivial: the value is an array or a map.", optional=False, technique="property-based testing: differential against an independent encoder and decoder, shrinking")
check("C09", "A case is a value tree written by the library and decoded by two independent decoders (a reference written from the specification, and msgpack-c's), or encoded with randomly chosen permitted widths and read by the library. "
      "Non-trivial: the value is an array or a map.", optional=False, technique="property-based testing: differential against independent encoders and decoders, shrinking")
check("C10", "A case is a value tree encoded with randomly chosen argument widths, float widths and definite or indefinite containers, and read by the library; or written by the library and decoded by a reference; or 256 half-precision values. "
      "Non-trivial: the value is an array or a map encoded in other than the shortest form.", technique="property-based testing: differential against an independent encoder and decoder, shrinking",
      note="The CBOR writer's bytes come from a stand-in for jsoncons; what is checked of the writer is the sequence of calls zerialize makes.")

check("C11", "A case is an array of one of the 13 element types with random bits in every element, rank 0 to 5, extents 0 to 257, in one source form (row-major, column-major, transposed, strided view, fixed rank, rows or columns of a matrix; Eigen matrices of six shapes and both orders; the map form), "
      "serialized as the root or nested, possibly translated to another protocol and back, and decoded by every decoder that fits. Non-trivial: more than one element.",
      split=10, opt="-O0", technique="property-based testing: generated arrays, round trip against the source's own elements, shrinking",
      note="xtensor 0.25 is installed; include paths of newer versions are forwarded to it (stubs/xt).")
check("C12", "A case is a value resembling a tensor of one of the 13 element types, in array or map form: a proper description with up to two changes (type code off by a power of two, unsigned, fractional or of another type; dimensions negative, beyond 32 bits, missing, surplus, fractional; shapes whose size wraps around 2^64 to the data's length; data too short or long; any part of another kind), or an arbitrary value; every decoder must accept exactly what the description says. "
      "Non-trivial: an integer, an array and a blob stand in the right places.",
      split=10, opt="-O0", technique="property-based testing: mutated tensor descriptions against an independent acceptance rule, under ASan/UBSan, shrinking")
check("C13", "A case is a tensor (13 element types, xtensor or Eigen) at one of 16 offsets from alignment, after a prefix that shifts its position in the message, and a history of up to seven copies, moves, assignments and destructions of views of it; the view's report, address, alignment and elements are compared with the facts. "
      "Non-trivial: more than one element.", split=10, opt="-O0", flags=["-fsanitize=alignment", "-fsanitize-ignorelist={here}/stubs/align-ignore.txt"],
      technique="stateful property-based testing: generated placements and view histories against an alignment oracle, under ASan/UBSan")
check("C14", "A case is a value tree read through borrowed or owned bytes; every string, key and blob view is collected through temporaries, its address compared with the message's range, and its contents compared again after the temporaries are gone, after printing, translating and failed accesses, and after a second visit; the message is compared byte for byte. "
      "Non-trivial: the value is an array or a map.", split=5, flags=["-DPBT_UAR"], technique="property-based testing: generated values and access paths, address and lifetime oracle under ASan (stack use after return included)")
check("C15", "A case is a history of up to 40 operations (construct by six routes, copy, move, assign, move-assign, self-assign, swap, store in vectors, replace, destroy) on a pool of readers of up to three messages; each reader is compared with the message it must read as. "
      "Non-trivial: at least three operations.", split=5, flags=["-DPBT_UAR"], technique="stateful property-based testing: generated histories against a model, under ASan, shrinking")
check("C16", "A case is a history of up to 50 operations on a pool of buffers (vector, malloc, new[], no-op, counting and stateful deleters, serializer results); after every step size, contents, ownership and dumps are compared with a model and every block's release count with a ledger. "
      "Non-trivial: at least three operations, or a non-empty buffer.", optional=False, technique="stateful property-based testing: generated histories against a model and an ownership ledger, under ASan/LSan, shrinking")
check("C17", "A case is a value described in one form or mixture (dynamic values built through every constructor, wrapped user and standard types, standard containers of 21 element types and their nestings, initializer lists, builders as temporaries, stored, copied, reused, nested), serialized into a recording protocol (and into the real ones); its events, announced sizes included, are compared with those of the value itself. "
      "Non-trivial: the value is an array or a map, or the part fixes a form.", split=5, opt="-O0", technique="property-based testing: generated values and forms, equality of recorded event sequences and messages, shrinking")
check("C18", "A case is a sequence of writer calls: those of a value with up to three changes (calls removed, inserted, repeated, swapped, of another kind, cut off, keys too long, wrong announced sizes), random calls, all short sequences, or deep nesting with wrong ends; what happens is compared with a reference recogniser, for a caller that stops at the first error and for one that ignores all. "
      "Non-trivial: more than one call.", split=3, technique="stateful property-based testing: generated and exhaustively enumerated call sequences against a reference recogniser, shrinking")
check("C19", "A case is a byte string (or 256 neighbours of one) to encode and decode, a text (standard base64 with up to three changes, alphabet characters, random bytes) to decode, or a JSON document containing a blob or an array resembling one; results are compared with an independent codec. "
      "Non-trivial: not empty.", technique="property-based testing: generated bytes and texts, differential against an independent codec, shrinking")
check("C20", "A case is two messages and up to 60 reads interleaved over several readers, copies, sub-readers and key iterators kept from earlier (contents, keys, enumeration, printing, translation, failing accesses, forwards and backwards), or messages placed one after another at the same address, or a value serialized repeatedly with other writers at work; every answer is compared with the model, every message byte for byte. "
      "Non-trivial: the value is an array or a map (and at least three reads).", split=5, technique="stateful property-based testing: generated read histories against a model, shrinking")
check("C21", "A case is a message and two to four threads released together, each performing up to twelve random read operations through the shared reader, a shared sub-reader, its own copy, its own reader or another message (or writing shared values, dynamic values, builders and tensors, or decoding tensors); ThreadSanitizer watches every access and every answer is compared with the model. "
      "Non-trivial: the value is an array or a map (or has more than one element).", split=6, san="tsan", opt="-O1",
      technique="property-based testing: generated concurrent read histories under ThreadSanitizer, answers against a model")
check("C22", "A case is a Zera message (the library's layout or another writer's), one of its values chosen as the damaged one, and a corruption of bytes that belong only to it (bit flips, boundary bytes, runs, random bytes, cutting off its data at the end of the message); all other values are read before and after reading the damaged one and compared with the model. "
      "Non-trivial: the damaged value is not the root and its bytes changed.", optional=False, technique="property-based testing: generated messages and corruptions confined by a byte-ownership map, against a model, under ASan/UBSan, shrinking")
check("C23", "A case is a value and an operation (serialize in several forms, open, read, copy, print, translate, decode tensors); the operation is repeated with the user's code throwing at each event, or with each allocation failing (once, or from there on), or with a failing source; up to 60 points are tried one by one, beyond that an even spread. Every failure must arrive as an exception (or the result be complete) with nothing left allocated, and everything must work afterwards. "
      "Non-trivial: the value is an array or a map (or not empty).", split=6, level="fault_enumeration", flags=["-include", "{here}/engine/faults.hpp"], extra_sources=["engine/faults.cpp"],
      technique="property-based testing with fault injection: generated values, every event or allocation failing in turn, exception and leak oracle, shrinking")
check("C24", "A case is a value tree written as Flex (directly, by serialize() or through builders), verified and read by the upstream library; or built with the upstream builder (typed, fixed-size and key vectors, C++ arrays of every width, indirect scalars, 32-bit floats, shared keys and strings, reused values, forced minimum widths) and read, indexed out of range, printed and translated by the library. "
      "Non-trivial: the value is an array or a map; when read: a special encoding was used.", optional=False, technique="property-based testing: differential against the upstream builder, verifier and reader, shrinking")
check("C25", "A case is a message in which memory that the reads do not ask for is poisoned (the contents of all strings and blobs but one; everything but the header and the root; for Zera everything inside containers off the path to one value) and a random walk that asks for everything else; or a walk through a whole message during which the library's allocations are counted. "
      "Non-trivial: some memory is poisoned (at least 64 bytes when opening); when counting: the value is an array or a map.", split=5, technique="property-based testing: generated messages and reads with the rest of the message poisoned (ASan), and counted allocations, shrinking")
check("C26", "A case is a family of values that grows with n (arrays, maps, tables, nestings, long strings and blobs of random elements), of which two sizes, n and 16n, are written or read by one operation while the work is counted: "
      "control-flow edges, bytes copied or scanned, bytes allocated; or a damaged message whose single reads are counted. Non-trivial: all of the former; of the latter those over 20 bytes.", split=5, san="none", fuzz=False,
      flags=["-fsanitize-coverage=trace-pc-guard"], extra_sources=["engine/cost.cpp"], libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],
      technique="property-based testing: generated value families at two sizes, metamorphic relation on counted work (instrumented edges, memory functions, allocations), shrinking",
      note="Randomised search with a deterministic seed; shows the absence of violations only on the generated cases. Work is counted on instrumented code; asymptotic growth is inferred from sizes n and 16n.")
check("C27", "A case is a value to write (in five forms), a message to read, damaged or not, or a tensor to write and decode, and two circumstances: what fresh, grown and freed memory and the stack hold (several bytes or a running pattern), the thread, the locale, an exception under way, other writers finished, unfinished or failed before, the message's address; "
      "messages, answers, error texts and printed forms must be identical. Non-trivial: the value is an array or a map (a tensor of more than one element, a damaged message of more than four bytes).", split=6, san="none", fuzz=False,
      extra_sources=["engine/world.cpp"], technique="property-based testing: generated values and damaged messages, metamorphic relation between two generated circumstances (memory contents, stack, thread, locale), shrinking",
      note="Randomised search with a deterministic seed; shows the absence of violations only on the generated cases. Uninitialised registers and memory from mmap are not controlled.")
check("C28", "A case is a value of a standard, user, tensor or dynamic type and a form (itself, a variable, a temporary, builders of it, nested, stored and moved, wrapped into a dynamic value) written to a writer that notes the address of everything it is given, or a message translated to that writer; "
      "allocations and copies of the user's objects are counted while the form is built and while it is written, and every address is compared with where the value has its contents. Non-trivial: the value is an array or a map, or the part fixes a form.", split=6,
      technique="property-based testing: generated values and forms of description, counted allocations and copies, identity of the memory handed to the writer, shrinking")
check("C29", "A case is two to six values and writers, of one protocol or of several, whose events are interleaved in any order; writers are made before or during the others' work, finished in any order, kept or dropped afterwards, or dropped half way; or a user's value whose serialization function serializes others (up to four deep, in any protocol and form) and stores their messages. "
      "Every message must be, and stay, the one written alone. Non-trivial: the writers take at least four turns; something is written inside something else.", split=5,
      technique="stateful property-based testing: generated interleavings of writers, messages compared with those written alone and with the model, shrinking")

check("C30", "A case is a program of two to four translation units, each including its own selection of the public headers in its own order and compiled by g++ or clang++ at its own optimisation level, the whole with one language standard (C++20 or 23) and one set of options "
      "(signed or unsigned char, checked standard library, NDEBUG); generated values are written in one unit (by events, builders, dynamic values or standard containers, in any protocol) and read, or translated and read, in another, next to tensors, Base64 and dumps. It must compile, link and find everything as written. "
      "Non-trivial: something written in one unit is read in another.", programs=True,
      technique="property-based testing: generated multi-unit programs, round trips across units, shrinking of the program",
      note="Randomised search over programs with a deterministic seed; two compilers, one standard library, one platform. No sanitizers: the values read back are the oracle.",
      assumptions=["Options that change the meaning of the language (-ffast-math, -fno-exceptions) are outside the property."])
