"""What each property's check builds and runs. See DESIGN.md for the reasoning."""

C14 = {"cxx": "clang++", "std": "c++14"}
C17 = {"cxx": "clang++", "std": "c++17"}
C20 = {"cxx": "clang++", "std": "c++20"}
G14 = {"cxx": "g++", "std": "c++14"}
G17 = {"cxx": "g++", "std": "c++17"}
G20 = {"cxx": "g++", "std": "c++20"}


def build(name, src, base, jobs, defs=(), **kw):
    b = dict(base)
    b.update({"name": name, "src": src, "jobs": jobs, "defs": list(defs)})
    b.update(kw)
    return b


def job(quick, thorough, suite=None, shards=1, **kw):
    j = {"cases": (quick, thorough), "shards": shards}
    if suite:
        j["suite"] = suite
    j.update(kw)
    return j


CHECKS = {}


def check(prop, level, rule, builds, assumptions=()):
    CHECKS[prop] = {"level": level, "rule": rule, "builds": builds, "assumptions": list(assumptions)}


# ---------------------------------------------------------------------------------------------------- arrays
# elements of vla.cpp
E_INT, E_STD, E_TMOVE, E_MONLY, E_MONLY_T, E_CONLY, E_ALIGN, E_STR, E_TRIV32, E_BYTE, E_NCOPY = range(11)
A_PMR, A_PROP, A_SEL, A_SELCA, A_MA, A_STD, A_STDPMR = range(7)


def vla(elem, alloc, base, jobs, exc=True, **kw):
    tag = "%s%s%s" % (base["cxx"][0], base["std"][-2:], "" if exc else "x")
    if kw.get("asserts", True) is False:
        tag += "n"
    return build("vla-e%d-a%d-%s" % (elem, alloc, tag), "vla.cpp", base, jobs,
                 ["-DELEM=%d" % elem, "-DALLOC=%d" % alloc], exc=exc, **kw)


def bits(alloc, base, jobs, exc=True, **kw):
    tag = "%s%s%s" % (base["cxx"][0], base["std"][-2:], "" if exc else "x")
    if kw.get("asserts", True) is False:
        tag += "n"
    return build("bits-a%d-%s" % (alloc, tag), "vlabool.cpp", base, jobs, ["-DALLOC=%d" % alloc], exc=exc, **kw)


def one(stem, base, jobs, exc=True, defs=(), **kw):
    """A build of harness/<stem>.cpp in one configuration."""
    tag = "%s%s%s" % (base["cxx"][0], base["std"][-2:], "" if exc else "x")
    if kw.get("asserts", True) is False:
        tag += "n"
    if kw.get("san"):
        tag += "-" + kw["san"]
    if kw.get("opt"):
        tag += kw["opt"]
    return build("-".join([stem, tag] + [d.lstrip("-D").replace("=", "") for d in defs]), stem + ".cpp", base, jobs,
                 list(defs), exc=exc, **kw)


R_HISTORY = ("A case is a random history of 8 to 60 operations over four arrays and three heaps, every observer compared "
             "with a sequence model after every operation; a case is non-trivial if it moved or copied contents between "
             "arrays, met a limit or passed an own element as argument; distinct by hash of the operations and the sizes "
             "and capacities they led to, per build.")
H = [job(2500, 60000, "history"), job(2500, 20000, "long"), job(4000, 40000, "large")]
HF = H + [job(2500, 20000, "forwarding")]
check("A01", "exploration", R_HISTORY + " Suite ranges builds one array from a range of another type; distinct by hash of "
      "types and values.", [
    vla(E_INT, A_PMR, C14, HF),
    vla(E_STD, A_PMR, C14, HF),
    vla(E_TMOVE, A_PROP, C14, H),
    vla(E_MONLY, A_PMR, C14, HF),
    vla(E_STR, A_STD, C17, H),
    vla(E_STR, A_SEL, G14, H),
    vla(E_TRIV32, A_PMR, G20, HF),
    vla(E_BYTE, A_MA, C20, H, asserts=False),
    vla(E_CONLY, A_STDPMR, G20, H),
    vla(E_NCOPY, A_STD, G17, H, asserts=False),
    one("ranges", C14, [job(4000, 80000, "ranges")]),
    one("ranges", G17, [job(4000, 80000, "ranges")]),
    one("ranges", C20, [job(4000, 80000, "ranges")], asserts=False, opt="-O2"),
])
L = [job(3000, 60000, "limits"), job(1500, 20000, "history")]
check("A02", "exploration", R_HISTORY + " Here the arrays are mostly given bounds of 0 to 9 elements and resources of "
      "limited size.", [
    vla(E_INT, A_PMR, C14, L),
    vla(E_STD, A_PMR, C14, L),
    vla(E_TMOVE, A_PROP, G17, L),
    vla(E_MONLY_T, A_PMR, C17, L),
    vla(E_STR, A_SEL, C14, L),
    vla(E_TRIV32, A_PMR, G20, L),
    vla(E_BYTE, A_STD, C20, L, asserts=False),
    vla(E_ALIGN, A_PMR, C14, L),
    vla(E_CONLY, A_SELCA, C14, L),
])
LT = [job(2000, 40000, "history,limits")]
LF = LT + [job(1000, 20000, "faults")]
check("A03", "exploration", R_HISTORY + " Elements register their address while alive.", [
    vla(E_STD, A_PMR, C14, LF),
    vla(E_STD, A_PROP, G20, LF),
    vla(E_TMOVE, A_PMR, C14, LF),
    vla(E_TMOVE, A_SEL, C17, LF),
    vla(E_MONLY, A_PMR, C14, LF),
    vla(E_MONLY_T, A_MA, G14, LF),
    vla(E_CONLY, A_PMR, C14, LF),
    vla(E_ALIGN, A_PMR, C17, LF),
    vla(E_NCOPY, A_PMR, C20, LF, asserts=False),
    vla(E_STR, A_PMR, C14, LT + [job(1, 1, "known.moving_reallocate", probe="moving_reallocate")]),
    vla(E_STD, A_PMR, C17, [job(2000, 40000, "history,starved")], exc=False),
    vla(E_MONLY, A_PMR, G17, [job(2000, 40000, "history,starved")], exc=False),
])
check("A04", "exploration", R_HISTORY + " Blocks come from recorded heaps whose surroundings are poisoned.", [
    vla(E_INT, A_PMR, C14, LF),
    vla(E_STD, A_PMR, C14, LF),
    vla(E_TMOVE, A_PROP, C14, LF),
    vla(E_STR, A_PMR, G17, LF),
    vla(E_TRIV32, A_PMR, C17, LF),
    vla(E_BYTE, A_SEL, C14, LF),
    vla(E_ALIGN, A_MA, C17, LF),
    vla(E_STR, A_STD, C14, LF),
    vla(E_INT, A_STD, G20, LF, asserts=False),
    vla(E_MONLY, A_STDPMR, G20, LF),
    vla(E_INT, A_PMR, C17, [job(2000, 40000, "history,starved")], exc=False),
    vla(E_STD, A_PROP, G17, [job(2000, 40000, "history,starved")], exc=False),
])
F = [job(2500, 50000, "faults"), job(1500, 30000, "starved")]


MX = [job(8000, 100000, "mixed")]
R_MX = ("Suite mixed applies six operations, one of which may fail, to values with one of 32 combinations of promises not to "
        "throw. ")
check("A05", "fault_enumeration", "A case replays a random prefix and lets one operation fail at its k-th element copy, "
      "move or construction, or its k-th allocation, for every k until none is left (suite faults), or runs a history "
      "over heaps that run out (suite starved). " + R_MX + "Non-trivial if a fault fired; distinct by hash of operations, sizes and "
      "fault position, per build.", [
    vla(E_STD, A_PMR, C14, F),
    vla(E_TMOVE, A_PMR, C14, F),
    vla(E_TMOVE, A_PROP, G20, F),
    vla(E_MONLY, A_PMR, C14, F),
    vla(E_MONLY_T, A_PMR, C17, F),
    vla(E_CONLY, A_PMR, C14, F),
    vla(E_CONLY, A_SELCA, G14, F),
    vla(E_ALIGN, A_SEL, C17, F),
    vla(E_NCOPY, A_PMR, C20, F, asserts=False),
    vla(E_INT, A_PMR, C14, F),
    vla(E_STR, A_MA, C14, F),
    vla(E_TRIV32, A_PMR, G17, F),
    one("mixed", C14, MX, defs=["-DMIXED=2"]),
    one("mixed", G17, MX, defs=["-DMIXED=2"]),
    one("mixed", C20, MX, defs=["-DMIXED=2"], asserts=False, opt="-O2"),
])
CA = [job(4000, 80000, "carried")]
T = [job(3000, 60000, "transfer"), job(1000, 20000, "history")]
check("A06", "exploration", R_HISTORY + " Half of the operations are copies, moves, swaps and allocator-extended "
      "constructions. " + R_MX + "Suite carried uses allocators which compare equal but carry a mark, with twelve "
      "combinations of traits; a case is non-trivial if it copied, moved or exchanged arrays.", [
    vla(E_STD, A_PMR, C14, T),
    vla(E_STD, A_PROP, C14, T),
    vla(E_STR, A_SEL, C14, T),
    vla(E_TMOVE, A_SELCA, C17, T),
    vla(E_MONLY, A_MA, C14, T),
    vla(E_MONLY_T, A_PROP, G14, T),
    vla(E_INT, A_PMR, G17, T),
    vla(E_BYTE, A_SELCA, C20, T),
    vla(E_CONLY, A_MA, C14, T),
    vla(E_STR, A_STD, G20, T, asserts=False),
    vla(E_TRIV32, A_STDPMR, G20, T),
    bits(A_PROP, C14, [job(1500, 30000, "history")]),
    bits(A_SELCA, G17, [job(1500, 30000, "history")]),
    one("mixed", G14, MX, defs=["-DMIXED=2"]),
    one("carried", C14, CA),
    one("carried", G17, CA),
    one("carried", C20, CA, asserts=False, opt="-O2"),
])
N = [job(2500, 50000, "starved"), job(1500, 30000, "history,limits,transfer")]
NB = [job(2500, 50000, "starved,faults"), job(1500, 30000, "history,limits")]
check("A07", "fault_enumeration", "Histories as for A01 and A02 in builds without exceptions, over heaps with limits and "
      "with random single or lasting allocation failures. Non-trivial if an operation failed, met a limit or moved "
      "contents; distinct by hash of operations, sizes and capacities, per build.", [
    vla(E_INT, A_PMR, C14, N, exc=False),
    vla(E_STD, A_PMR, C14, N, exc=False),
    vla(E_MONLY, A_PMR, C17, N, exc=False),
    vla(E_STR, A_PROP, G17, N, exc=False),
    vla(E_TRIV32, A_PMR, G20, N, exc=False),
    vla(E_BYTE, A_SEL, C17, N, exc=False, asserts=False),
    vla(E_CONLY, A_MA, C14, N, exc=False),
    vla(E_ALIGN, A_SELCA, C17, N, exc=False),
    bits(A_PMR, C14, NB, exc=False),
    bits(A_PROP, G17, NB, exc=False),
    bits(A_SEL, C20, NB, exc=False, asserts=False),
])

R_BITS = ("A case is a random history of 8 to 60 operations over four boolean arrays, every bit and observer compared with "
          "a sequence of booleans after every operation; non-trivial if contents moved between arrays, a limit was met, a "
          "size was not a multiple of 8 or one array was rebuilt along another path for comparison; distinct by hash of "
          "operations, sizes and capacities, per build.")
BH = [job(3500, 80000, "history"), job(1000, 20000, "limits"), job(3000, 30000, "long")]
check("B01", "exploration", R_BITS + " Suite bitranges builds one array from a range; distinct by hash of the values.", [
    bits(A_PMR, C14, BH),
    bits(A_PROP, C14, BH),
    bits(A_SEL, G14, BH),
    bits(A_MA, G20, BH),
    bits(A_STD, C17, BH),
    bits(A_STDPMR, G17, BH),
    bits(A_PMR, C20, BH, asserts=False),
    bits(A_PMR, C17, BH, exc=False),
    one("ranges", G14, [job(4000, 80000, "bitranges")]),
    one("ranges", C17, [job(4000, 80000, "bitranges")], exc=False),
])
BL = [job(2500, 60000, "limits"), job(2500, 50000, "starved"), job(2500, 50000, "faults")]
check("B02", "fault_enumeration", R_BITS + " Suite faults lets one operation fail at its k-th allocation for every k; "
      "suite starved uses heaps that run out.", [
    bits(A_PMR, C14, BL),
    bits(A_PROP, G17, BL),
    bits(A_SEL, C14, BL),
    bits(A_SELCA, C17, BL),
    bits(A_MA, G20, BL),
    bits(A_PMR, C20, BL, asserts=False),
    bits(A_PMR, C17, BL, exc=False),
    bits(A_STD, C14, [job(2500, 60000, "limits")]),
])


# ---------------------------------------------------------------------------------------------------- memory resources


def spread(stem, jobs, bases=(C14, C17, G14, G20), exc_off=(C17, G14), nodebug=(C20,), **kw):
    """The usual configurations of a harness."""
    return ([one(stem, b, jobs, **kw) for b in bases] + [one(stem, b, jobs, exc=False, **kw) for b in exc_off] +
            [one(stem, b, jobs, asserts=False, **kw) for b in nodebug])


check("M01", "exploration", "A case is a random history of allocations, reallocations and deallocations of random size and "
      "alignment on one buffer or array resource over a recorded upstream resource with limits and failures; every block "
      "is filled, and checked for place, alignment, overlap and contents. Non-trivial if upstream was used or a request "
      "failed; distinct by hash of operations and outcomes, per build.",
      spread("mem", [job(12000, 300000, "buffer,array,delegate_std,traits")]))
check("M02", "exploration", "A case is a random history of allocations of random size and alignment and releases on a "
      "monotonic resource with or without initial buffer over a recorded upstream resource with limits and failures; "
      "every block is filled, and checked for place, alignment, overlap and contents. Non-trivial if upstream was used or "
      "a request failed; distinct by hash of operations and outcomes, per build.",
      spread("mem", [job(12000, 300000, "monotonic")]))
check("M03", "exploration", "A case is a random history of allocations, reallocations and deallocations of random size and "
      "alignment (also impossible ones) on the general-purpose, null and default resources; every block is filled, and "
      "checked for alignment, overlap and contents. Non-trivial if a block was reallocated or refused; distinct by hash of "
      "operations and outcomes, per build.",
      spread("mem", [job(12000, 300000, "general,traits,released")]))
TD = [job(600, 12000, "default", shards=2)]
check("M04", "exploration", "A case is a process whose 2 to 4 threads read and replace the default or general-purpose "
      "resource (or first obtain the singletons) up to 24 times each; the history is judged by the one order replacements "
      "must form and by real-time windows, and ThreadSanitizer watches publication of the resources. All cases are "
      "non-trivial; distinct by the seed of the threads.", [
    one("default_threads", C14, TD, san="tsan"),
    one("default_threads", C17, TD, san="tsan", opt="-O2"),
    one("default_threads", G17, TD, san="tsan", opt="-O2"),
    one("default_threads", C20, TD, exc=False, san="tsan"),
    one("default_threads", C14, TD, opt="-O2"),
    one("default_threads", G20, TD, asserts=False, san="none", opt="-O2"),
], ["Schedules are those the machine produced; races are found by happens-before analysis on them."])
check("M05", "exploration", "A case is a random set of polymorphic allocators over several recorded resources used to "
      "request memory, to construct objects and pairs of seven kinds with random value categories of the arguments, or in "
      "standard containers. Non-trivial if a request failed, an allocator-aware object or pair was constructed or "
      "containers exchanged contents; distinct by hash of operations and outcomes, per build.",
      spread("polyalloc", [job(8000, 200000)]))
check("M06", "fault_enumeration", "A case is a random history of creations, moves, swaps, resets, releases and sharings "
      "of smart pointers over several recorded resources and class hierarchies, with failing allocations and throwing "
      "constructors. Non-trivial if ownership moved or a creation failed; distinct by hash of operations and outcomes, "
      "per build.",
      spread("smartptr", [job(8000, 200000)]))

# ---------------------------------------------------------------------------------------------------- unbounded variants
# storage of uvariant.cpp: in place, from a resource, both
INPLACE, PMR, BOTH = ["-DCFG=0"], ["-DCFG=1"], ["-DCFG=2"]
R_UV = ("A case is a random history of up to 40 operations over four unbounded variants, five types of value and two "
        "recorded resources; type, size, value, address and resource of every variant are compared with a model after "
        "every operation. Non-trivial if values moved between variants or an operation failed; distinct by hash of "
        "operations and outcomes, per build.")
UH = [job(5000, 120000, "history"), job(1600, 16000, "forwarding")]
OWN = [job(1, 1, "known.own_value", probe="own_value")]
check("U01", "exploration", R_UV, [
    one("uvariant", C14, UH + OWN, defs=INPLACE, opt="-O0"),
    one("uvariant", C14, UH, defs=PMR, opt="-O0"),
    one("uvariant", C17, UH, defs=BOTH),
    one("uvariant", G14, UH, defs=BOTH, opt="-O0"),
    one("uvariant", G20, UH, defs=INPLACE, opt="-O0"),
    one("uvariant", G17, UH, defs=PMR, opt="-O0"),
    one("uvariant", C17, UH, exc=False, defs=BOTH, opt="-O0"),
    one("uvariant", G14, UH, exc=False, defs=PMR, opt="-O0"),
    one("uvariant", C20, UH, asserts=False, defs=BOTH, opt="-O0"),
])
UL = [job(2500, 60000, "history"), job(2500, 60000, "starved"), job(1500, 30000, "faults")]
ULX = [job(3000, 60000, "history"), job(3000, 60000, "starved")]
check("U02", "fault_enumeration", R_UV + " Values register their address while alive; suite starved uses heaps that run "
      "out, suite faults lets one operation fail at every one of its points of failure in turn.", [
    one("uvariant", C14, UL, defs=BOTH, opt="-O0"),
    one("uvariant", C17, UL, defs=PMR),
    one("uvariant", G14, UL, defs=INPLACE, opt="-O0"),
    one("uvariant", G20, UL, defs=BOTH, opt="-O0"),
    one("uvariant", C20, UL, asserts=False, defs=PMR, opt="-O0"),
    one("uvariant", C17, ULX, exc=False, defs=BOTH, opt="-O0"),
    one("uvariant", G17, ULX, exc=False, defs=PMR, opt="-O0"),
])
UF = [job(4000, 80000, "faults"), job(3000, 60000, "starved")]
UFX = [job(5000, 100000, "starved")]
check("U03", "fault_enumeration", "A case replays a random prefix and lets one operation fail at its k-th construction, "
      "copy or move of a value, or its k-th allocation, for every k until none is left (suite faults), or runs a history "
      "over heaps that run out (suite starved), always followed by further operations. Non-trivial if a fault fired or "
      "values moved; distinct by hash of operations, outcomes and fault position, per build.", [
    one("uvariant", C14, UF, defs=BOTH),
    one("uvariant", C14, UF, defs=PMR, opt="-O0"),
    one("uvariant", C17, UF, defs=INPLACE, opt="-O0"),
    one("uvariant", G14, UF, defs=PMR, opt="-O0"),
    one("uvariant", G20, UF, defs=BOTH, opt="-O0"),
    one("uvariant", C20, UF, asserts=False, defs=BOTH, opt="-O0"),
    one("uvariant", C17, UFX, exc=False, defs=PMR, opt="-O0"),
    one("uvariant", G14, UFX, exc=False, defs=BOTH, opt="-O0"),
])
check("U04", "exploration", "A case holds an object of a random class of declared hierarchies (single, multiple, diamond, "
      "private) in a variant or behind a base pointer and asks for every type in every form; the verdict is what "
      "dynamic_cast (or the declaration) says. Non-trivial if both answers occurred; distinct by hash of class, form and "
      "outcome, per build.",
      spread("access", [job(20000, 400000)]))

# ---------------------------------------------------------------------------------------------------- functions
FH = [job(5000, 120000, "history,signatures"), job(1500, 15000, "categories")]
check("F01", "exploration", "A case is a random history of up to 40 operations over four type-erased functions with five "
      "kinds of target and two recorded resources, or calls through eight signatures; after every operation each function "
      "is called and must reach exactly the target of the model, with the arguments given. Non-trivial if targets moved "
      "between functions; distinct by hash of operations and outcomes, per build.",
      spread("function", FH))
FF = [job(3000, 60000, "history"), job(3000, 60000, "starved"), job(2500, 50000, "faults")]
FFX = [job(4000, 80000, "history"), job(4000, 80000, "starved")]
check("F02", "fault_enumeration", "A case replays a random prefix and lets one operation fail at its k-th copy or move of "
      "a target, or its k-th allocation, for every k until none is left (suite faults), or runs a history over heaps that "
      "run out (suite starved); targets register their address while alive. Non-trivial if a fault fired or targets moved; "
      "distinct by hash of operations, outcomes and fault position, per build.",
      [one("function", b, FF) for b in (C14, C17, G14, G20)] + [one("function", C20, FF, asserts=False)] +
      [one("function", b, FFX, exc=False) for b in (C17, G14)])


# ---------------------------------------------------------------------------------------------------- optional
def elem(n):
    return ["-DELEM=%d" % n]


OH = [job(8000, 150000, "history"), job(800, 8000, "conversions,forwarding,traits")]
HID = [job(1, 1, "known.hidden_address", probe="hidden_address")]
check("O01", "exploration", "A case is a random history of 6 to 40 operations over three optionals; engagement, value, "
      "address, moved-from state and failing access of each are compared with a model after every operation (the model "
      "itself was run against std::optional), or one round of conversions between optional types. Non-trivial if values "
      "moved between optionals; distinct by hash of operations and outcomes, per build.", [
    one("optional", C14, OH + HID, defs=elem(0)),
    one("optional", G17, OH, defs=elem(1)),
    one("optional", C17, OH, defs=elem(2)),
    one("optional", G14, OH, defs=elem(3)),
    one("optional", C20, OH, defs=elem(4), asserts=False),
    one("optional", G20, OH, defs=elem(5)),
    one("optional", C14, OH, defs=elem(6)),
    one("optional", C17, OH, defs=elem(7)),
    one("optional", G14, OH, defs=elem(8)),
    one("optional", C14, OH, defs=elem(9)),
    one("optional", G17, OH, defs=elem(10)),
    one("optional", C17, OH, defs=elem(13), exc=False),
    one("optional", C14, OH, defs=elem(10), exc=False),
    one("optional", G20, OH, defs=elem(2), exc=False),
])
OF = [job(5000, 100000, "faults"), job(3000, 50000, "history")]
# Values of which every operation separately promises not to throw or may throw.
check("O02", "fault_enumeration", "A case replays a random prefix over three optionals and lets one operation fail at the "
      "k-th construction, copy, move or assignment of a value, for every k until none is left, followed by further "
      "operations; values register their address while alive. " + R_MX + "Non-trivial if a fault fired or values moved; "
      "distinct by hash of operations, outcomes and fault position, per build.", [
    one("mixed", C14, MX, defs=["-DMIXED=1"]),
    one("mixed", G17, MX, defs=["-DMIXED=1"]),
    one("mixed", C20, MX, defs=["-DMIXED=1"], asserts=False, opt="-O2"),
    one("optional", C14, OF, defs=elem(0)),
    one("optional", G20, OF, defs=elem(0)),
    one("optional", C17, OF, defs=elem(1)),
    one("optional", G14, OF, defs=elem(2)),
    one("optional", C14, OF, defs=elem(3)),
    one("optional", G17, OF, defs=elem(4)),
    one("optional", C20, OF, defs=elem(5), asserts=False),
    one("optional", C14, OF, defs=elem(6)),
    one("optional", C14, OF, defs=elem(8)),
    one("optional", G20, OF, defs=elem(9)),
    one("optional", C17, OF, defs=elem(11)),
    one("optional", G14, OF, defs=elem(12)),
])
check("O03", "exploration", "A case fills the six operators of the value types with random answers and applies all "
      "six comparisons to every pairing of optional, optional of another type, value and null; the operator reached, its "
      "operands and the result are compared with the standard's rule, likewise for floating-point values with NaN. All "
      "cases are non-trivial; distinct by hash of engagement, values and answers, per build.",
      spread("optional", [job(20000, 400000, "compare,operators")], defs=elem(7)))


# ---------------------------------------------------------------------------------------------------- variant
def cfg(n):
    return ["-DCFG=%d" % n]


R_V = ("A case is a random history of 6 to 40 operations over three variants; index, value, address, moved-from state and "
       "failing access of each, and visits of one, two and three of them, are compared with a model after every operation "
       "(the model itself was run against std::variant). ")
VH = [job(3000, 60000, "history"), job(800, 8000, "conversions,forwarding,traits")]
VW = [job(3000, 60000, "wide")]
VI = [job(4000, 80000, "visitors"), job(2000, 20000, "single")]
check("V01", "exploration", R_V + "Suites visitors and single hand visitors with state to make_overloaded. "
      "Non-trivial if values moved between variants or two were visited; distinct by hash of operations and "
      "outcomes, per build.", [
    one("variant", C14, VH, defs=cfg(0)),
    one("variant", G14, VH, defs=cfg(1)),
    one("variant", C17, VH, defs=cfg(2)),
    one("variant", G17, VH, defs=cfg(3)),
    one("variant", C20, VH, defs=cfg(5), asserts=False),
    one("variant", G20, VH, defs=cfg(6)),
    one("variant", C14, VH, defs=cfg(7)),
    one("variant", G14, VH + VW, defs=cfg(8)),
    one("variant", C20, VH + VW, defs=cfg(8), exc=False),
    one("variant", C17, VH, defs=cfg(0), exc=False),
    one("variant", G14, VH, defs=cfg(6), exc=False),
    one("visitors", C14, VI),
    one("visitors", G17, VI),
    one("visitors", C20, VI, asserts=False, opt="-O2"),
    one("visitors", G14, VI, exc=False),
])
VF = [job(2500, 50000, "faults"), job(2500, 50000, "valueless"), job(1500, 20000, "history")]
check("V02", "fault_enumeration", R_V + "Suite faults lets one operation fail at the k-th construction, copy, move or "
      "assignment of a value, for every k until none is left; suite valueless starts from variants which lost their value. "
      "Values register their address while alive. " + R_MX + "Non-trivial if a fault fired or values moved; distinct by hash "
      "of operations, outcomes and fault position, per build.", [
    one("mixed", G14, MX, defs=["-DMIXED=0"]),
    one("mixed", C17, MX, defs=["-DMIXED=0"]),
    one("mixed", C20, MX, defs=["-DMIXED=0"], asserts=False, opt="-O2"),
    one("variant", C14, VF, defs=cfg(0)),
    one("variant", G14, VF, defs=cfg(1)),
    one("variant", C17, VF, defs=cfg(2)),
    one("variant", G17, VF, defs=cfg(3)),
    one("variant", C20, VF, defs=cfg(5), asserts=False),
    one("variant", G20, VF, defs=cfg(6)),
    one("variant", C14, VF, defs=cfg(7)),
    one("variant", G14, VF, defs=cfg(8)),
])
check("V03", "exploration", "A case fills the six operators of the alternatives with random answers and applies all six "
      "comparisons to pairs of variants over every pair of alternatives and the valueless state; the operator reached, its "
      "operands and the result are compared with the standard's rule, likewise for floating-point values with NaN. All "
      "cases are non-trivial; distinct by hash of indices, values and answers, per build.",
      spread("variant", [job(20000, 400000, "compare,operators")], defs=cfg(4)))


# ---------------------------------------------------------------------------------------------------- views
def chars(n):
    return ["-DCHARS=%d" % n]


def cell(n):
    return ["-DCELL=%d" % n]


SV = [job(12000, 300000, "queries"), job(12000, 300000, "relations"), job(12000, 300000, "searches")]
SO = SV + [job(6000, 150000, "output")]
check("S01", "exploration", "A case is a set of random views (of up to 40 characters of a small alphabet, null, empty, "
      "overlapping, with embedded nulls) in exactly sized heap blocks and applies every query, comparison, search or "
      "formatted output with random and boundary arguments; results are compared with a plain re-statement of the "
      "standard's definitions (itself run against std::basic_string_view). Non-trivial if the views are not empty; distinct "
      "by hash of texts, arguments and results, per build.", [
    one("strview", C14, SO, defs=chars(0)),
    one("strview", G14, SO, defs=chars(1)),
    one("strview", C17, SV, defs=chars(2)),
    one("strview", G17, SO, defs=chars(3)),
    one("strview", C20, SO, defs=chars(4), asserts=False),
    one("strview", G20, SO, defs=chars(0)),
    one("strview", C14, SO, defs=chars(3)),
    one("strview", C14, SO, defs=chars(4)),
    one("strview", C17, SO, defs=chars(0), exc=False),
    one("strview", G14, SO, defs=chars(4), exc=False),
])
SP = [job(6000, 150000)]
check("S02", "exploration", "A case is a chain of sub-spans, static and dynamic, over a heap block of exactly the length "
      "of the array, or a round of constructions from arrays, pointers, iterators and other spans; start, size, traversal "
      "and writes of each are compared with index arithmetic (itself run against std::span). Non-trivial if the span is "
      "not empty; distinct by hash of lengths, offsets and contents, per build.",
      [one("span", b, SP, defs=cell(i)) for i, b in enumerate((C14, G14, C17, G17))] +
      [one("span", b, SP, defs=cell(i)) for i, b in enumerate((G20, C14, G14, C17))] +
      [one("span", C17, SP, exc=False, defs=cell(1)), one("span", G14, SP, exc=False, defs=cell(0)),
       one("span", C20, SP, asserts=False, defs=cell(2)), one("span", G17, SP, asserts=False, defs=cell(3))])

# ---------------------------------------------------------------------------------------------------- everything
X_SUITES = ("memory", "delegate", "resources", "optionals", "variants", "views", "spans", "arrays", "own", "names")
XE = [job(1500, 20000, s, digest="on-" + s) for s in X_SUITES]
XX = [job(1500, 20000, s, digest="off-" + s) for s in X_SUITES]
check("X01", "exploration", "A case is a random program over the standard-neutral names (resources and allocators, "
      "optional, variant, views, spans, arrays, the library's own types) whose every observation enters a digest; the "
      "digests of the same cases must be the same in every configuration of language standard, compiler, assertions and "
      "optimisation, and no assertion may fire. Non-trivial as the suite says; distinct by hash of operations and "
      "outcomes, per build.",
      [one("neutral", b, XE) for b in (C14, C17, C20, G14, G17, G20)] +
      [one("neutral", b, XE, asserts=False, san="none", opt="-O2") for b in (C14, G17, G20, C17)] +
      [one("neutral", b, XX, exc=False) for b in (C14, C17, C20, G14, G20)] +
      [one("neutral", b, XX, exc=False, asserts=False, san="none", opt="-O2") for b in (G14, G17)] +
      # the library's own types where the standard has them too
      [one("neutral", b, XE, defs=["-DOWN"]) for b in (C17, G20)] +
      [one("neutral", C20, XE, defs=["-DOWN"], asserts=False, san="none", opt="-O2"),
       one("neutral", G17, XX, defs=["-DOWN"], exc=False)])
TS = [job(250, 6000, "shared", shards=2)]
NT = ["-DVH_THREADS=3"]


def tj(quick, suite=None):
    return [job(quick, quick * 20, suite)]


check("T01", "exploration", "A case of shared.cpp makes one object of every kind and lets 2 to 5 threads apply const "
      "operations to them; what each thread saw is compared with a repetition by one thread and with fresh objects. In "
      "the other harnesses three threads run histories of their own (different seeds) with private objects under the "
      "monitors of the single-threaded checks. ThreadSanitizer watches both. Non-trivial as for the harness; distinct by "
      "hash of operations and outcomes, per build.", [
    one("shared", C14, TS, san="tsan"),
    one("shared", G17, TS, san="tsan", opt="-O2"),
    one("shared", C20, TS, san="tsan", asserts=False),
    one("shared", C17, TS, san="tsan", exc=False),
    one("shared", G20, TS, san="asan"),
    one("vla", C14, tj(300, "history,transfer"), san="tsan", defs=NT + ["-DELEM=1", "-DALLOC=0"]),
    one("vla", G17, tj(300, "history,limits"), san="tsan", defs=NT + ["-DELEM=7", "-DALLOC=5"]),
    one("vlabool", C17, tj(300, "history"), san="tsan", defs=NT + ["-DALLOC=0"]),
    one("mem", C14, tj(600, "buffer,array,monotonic,general,traits"), san="tsan", defs=NT),
    one("polyalloc", G14, tj(300), san="tsan", defs=NT),
    one("smartptr", C14, tj(300), san="tsan", defs=NT),
    one("uvariant", C14, tj(300, "history"), san="tsan", defs=NT + BOTH),
    one("uvariant", G20, tj(300, "faults"), san="tsan", defs=NT + PMR),
    one("access", C17, tj(600), san="tsan", defs=NT),
    one("function", C14, tj(300, "history,signatures"), san="tsan", defs=NT),
    one("optional", C14, tj(300, "history,conversions"), san="tsan", defs=NT + elem(0)),
    one("variant", C14, tj(300, "history,conversions"), san="tsan", defs=NT + cfg(0)),
    one("strview", G14, tj(600, "queries,relations,searches,output"), san="tsan", defs=NT + chars(0)),
    one("span", C14, tj(600), san="tsan", defs=NT + cell(1)),
], ["Schedules are those the machine produced; races are found by happens-before analysis on them."])
