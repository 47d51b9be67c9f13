"""What each property's check compiles and explores."""


class Job:
    def __init__(self, src, defs=None, args=(), opt="-O2", avx=True, ndebug=False,
                 asan=False, cflags=(), ldflags=(), budget=None, must_compile=False,
                 variants=()):
        self.src, self.defs, self.args = src, dict(defs or {}), list(args)
        self.opt, self.avx, self.ndebug, self.asan = opt, avx, ndebug, asan
        self.cflags, self.ldflags = list(cflags), list(ldflags)
        self.budget, self.must_compile = budget, must_compile
        # further translation units: (source, flags)
        self.variants = [(a, list(b)) for a, b in variants]

    def to_dict(self):
        return dict(self.__dict__)

    @staticmethod
    def from_dict(d):
        return Job(**d)

    def label(self):
        d = " ".join(f"{k}={v}" for k, v in self.defs.items())
        f = " ".join(x for x, on in (("asan", self.asan), ("ndebug", self.ndebug),
                                     ("no-avx2", not self.avx)) if on)
        return f"{self.src} {d} {self.opt} {f}".strip()


WRAP = ["-Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise"]
LESS, GREATER = "std::less<KEY>", "std::greater<KEY>"


def cfg(key, val, mode, ln=8, inn=8, cmp=LESS, **kw):
    d = {"KEY": key, "VAL": val, "MODE": mode, "LN": ln, "IN": inn, "CMP": cmp}
    d.update(kw)
    return d


# One configuration per line: together they pair every key type, search mode, order,
# value type and node size the container is used with.
SMALL = [  # small nodes: all shapes up to a size
    cfg("int64_t", "uint32_t", "Linear"),
    cfg("int32_t", "std::string", "SIMD", 8, 9, GREATER),
    cfg("std::string", "std::string", "Binary"),
    cfg("double", "uint64_t", "SIMD", 9, 8),
    cfg("uint64_t", "dom::Obj", "SIMD", 8, 8, GREATER),
    cfg("float", "dom::Big", "SIMD", 10, 10, GREATER),
    cfg("dom::NoEqKey", "dom::Obj", "Linear", 11, 8),
    cfg("dom::ClassKey", "dom::Anchor", "Binary", 8, 8, "dom::ByMajor"),
    cfg("uint32_t", "std::shared_ptr<uint32_t>", "Binary", 8, 10,
        "dom::CustomDesc<KEY>"),
]
MEDIUM = [  # nodes from which several elements are borrowed at once
    cfg("dom::AKey", "dom::Anchor", "Binary", 16, 16),
    cfg("int64_t", "std::string", "Linear", 15, 17, GREATER),
]
LARGE = [  # larger nodes: programs and two-leaf shapes
    cfg("uint8_t", "uint8_t", "SIMD", 40, 36),
    cfg("int16_t", "dom::Wide", "SIMD", 20, 18, GREATER),
    cfg("uint32_t", "dom::Obj", "SIMD", 64, 64),
    cfg("int64_t", "int64_t", "Linear",
        "(kressler::fast_containers::default_leaf_node_size<KEY,VAL>())",
        "(kressler::fast_containers::default_internal_node_size<KEY>())"),
]
HUGE = [  # more than 256 entries in a node
    cfg("int32_t", "uint32_t", "SIMD", 8, 300),
    cfg("uint16_t", "uint32_t", "SIMD", 300, 9, GREATER),
    cfg("std::string", "uint64_t", "Binary", 260, 8),
    cfg("dom::ClassKey", "uint32_t", "Linear", 9, 270, "dom::ByMajor"),
]


def huge(s, q, **kw):
    for c, n, k, avx in BIG:
        s["jobs"].append(Job("big.cpp", c, kv(big=n, skip=k if q else 1), avx=avx))
    if not q:
        s["jobs"].append(Job("big.cpp", BIG[0][0], kv(big=1000000, skip=7)))
    for i, c in enumerate(HUGE):
        s["jobs"].append(seq(c, bfs=0, family=1, fmax=(2700, 1000, 560, 2500)[i],
                             fstep=(61, 17, 29, 101)[i] if q else (3, 3, 17, 5)[i], **kw))


def caps(key, val, mode, sizes, cmp=LESS, deep=0, **kw):
    """Every capacity (an int) or pair of node sizes of a list."""
    d = {"KEY": key, "VAL": val, "MODE": mode, "CMP": cmp}
    if isinstance(sizes[0], tuple):
        d["TREES"] = 1
        d["LIST"] = " ".join(f"X({a},{b})" for a, b in sizes)
    else:
        d["LIST"] = " ".join(f"X({a})" for a in sizes)
    return Job("caps.cpp", d, kv(deep=deep), opt="-O1", **kw)


def around(*ns):
    return [m for n in ns for m in (n - 1, n, n + 1)]


CAPS = [  # capacities of dense_map
    ("int32_t", "uint32_t", "SIMD", list(range(1, 21)), LESS),
    ("uint16_t", "uint32_t", "SIMD", list(range(21, 35)) + around(48, 64), GREATER),
    ("uint8_t", "std::string", "SIMD", [7, 15, 16, 17, 31, 32, 33] + around(64) + [119], LESS),
    ("int64_t", "uint8_t", "SIMD", around(96, 112, 128, 144, 192, 256), LESS),
    ("std::string", "uint32_t", "Binary", [2, 9] + around(32, 128, 256), GREATER),
    ("float", "uint64_t", "SIMD", around(64, 128, 256, 512, 1024), GREATER),
    ("int32_t", "uint8_t", "Binary", around(2048, 4096, 32768, 65536), LESS),
]
BULKY = [  # values of unusual sizes, keys that are no numbers
    ("int32_t", "dom::Blob<1037>", "SIMD", [5, 16, 63, 64, 65], LESS),
    ("dom::Shade", "dom::Blob<3>", "Binary", [1, 8, 21, 64, 90], GREATER),
    ("const char*", "dom::Blob<70001>", "Linear", [2, 7, 16], LESS),
    ("std::pair<int32_t, uint8_t>", "dom::Blob<259>", "Binary", [4, 33, 256], LESS),
]
BULKY_TREES = [
    ("int64_t", "dom::Blob<1037>", "SIMD", [(8, 8), (64, 64)], GREATER),
    ("dom::Shade", "dom::Blob<5>", "Linear", [(8, 9), (33, 20)], LESS),
    ("const char*", "dom::Blob<9001>", "Binary", [(8, 16)], GREATER),
    ("std::pair<int32_t, uint8_t>", "dom::Blob<523>", "Linear", [(16, 8), (130, 12)], LESS),
]
NODES = [  # leaf and internal node sizes of btree
    ("int32_t", "uint32_t", "SIMD", [(8, 12), (12, 8), (13, 14), (14, 13), (19, 8), (8, 19),
                                     (24, 25), (33, 31)], LESS),
    ("int64_t", "dom::Blob<32>", "SIMD", [(96, 128), (64, 64), (128, 96)], LESS),
    ("int64_t", "uint8_t", "SIMD", [(n, 8) for n in around(32, 64, 128, 256)][3:], GREATER),
    ("uint16_t", "uint32_t", "Binary", [(8, n) for n in around(32, 64, 128, 256)][3:], LESS),
    ("double", "uint64_t", "SIMD", [(511, 9), (512, 8), (513, 10), (1024, 8), (9, 511),
                                    (8, 512), (10, 513), (8, 1024)], LESS),
    ("uint32_t", "uint8_t", "Binary", [(65535, 9), (65536, 8), (8, 65536), (256, 256)],
     LESS),
]


BIG = [  # trees of 65 thousand elements and more, up to eight levels
    (cfg("int64_t", "uint32_t", "SIMD"), 70000, 3, True),
    (cfg("int16_t", "uint64_t", "SIMD", 9, 8, GREATER), 65536, 3, False),
    (cfg("std::string", "std::string", "Binary", 16, 12, GREATER), 66000, 11, True),
    (cfg("double", "uint32_t", "Linear", 64, 64), 300000, 11, True),
    (cfg("uint16_t", "uint8_t", "Binary", 10, 270), 65536, 5, True),
]


def kv(**kw):
    return [f"{k}={v}" for k, v in kw.items()]


def seq(c, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in
             ("opt", "avx", "ndebug", "asan", "budget", "must_compile", "cflags")}
    return Job("btree_seq.cpp", c, kv(**kw), **extra)


ASSUME = [
    "keys, comparators and value moves do not throw; the comparator is a strict weak "
    "ordering; value moves leave the source destructible",
    "the bounds stated under coverage.bounds; larger trees only through the "
    "enumerated programs",
]


def spec(prop, tier):
    q = tier == "quick"
    s = {"jobs": [], "level": "model_checking", "budget": 100 if q else 1500,
         "assumptions": ASSUME, "bounds": "", "rule": ""}
    globals()["spec_" + prop](s, q)
    return s


def tall(q, i=0):
    """Programs on trees of three to five levels (see DESIGN.md)."""
    return {"tall": (260 if i % 4 else 700) if q else 1000,
            "tstep": (11 if i % 4 else 83) if q else 5}


def spec_C01(s, q):
    n = 22 if q else 26
    for i in (0, 2, 5):
        s["jobs"].append(seq(SMALL[i], nmax=15 if q else 19, touch=15 if q else 19))
    for i, c in enumerate(SMALL):
        s["jobs"].append(seq(c, nmax=n, flavours=n - 2, macro=1, leaves=10 if q else 14,
                             family=1, fmax=120 if q else 400, fstep=23 if q else 5,
                             **tall(q, i)))
    for i, c in enumerate(MEDIUM):
        s["jobs"].append(seq(c, nmax=34 if q else 42, flavours=26 if q else 34, macro=1,
                             leaves=22 if q else 30, **tall(q, i)))
    for c in LARGE:
        s["jobs"].append(seq(c, nmax=24, family=1, fmax=300 if q else 2000,
                             fstep=23 if q else 3, flavours=12))
    huge(s, q)
    for c in NODES + BULKY_TREES:
        s["jobs"].append(caps(*c, deep=0 if q else 1))
    s["bounds"] = (
        f"every tree shape reachable with at most {n} elements and 8-ary nodes; in each, "
        "every insertion flavour at every gap and on every element, every erasure; in "
        f"those of at most {15 if q else 19} every visit to a leaf, then every change, "
        "then every change next to a leaf border; "
        "internal structures up to the given number of leaves; build/drain/refill "
        "programs beyond, also with nodes of 260 to 300 entries and with up to "
        f"{300000 if q else 1000000} elements (every value of 16-bit keys); whole fill and "
        "drain programs at 31 pairs of node sizes up to 65536, values of up to 9001 bytes")


def spec_C02(s, q):
    n = 25 if q else 28
    for i in (1, 3):
        s["jobs"].append(seq(SMALL[i], nmax=14 if q else 18, touch=14 if q else 18))
    for i, c in enumerate(SMALL):
        s["jobs"].append(seq(c, nmax=n, macro=1, leaves=12 if q else 18,
                             family=1, fmax=150 if q else 400, fstep=23 if q else 5,
                             **tall(q, i + 1)))
    for i, c in enumerate(MEDIUM):
        s["jobs"].append(seq(c, nmax=36 if q else 42, macro=1,
                             leaves=22 if q else 30, **tall(q, i)))
    for c in LARGE:
        s["jobs"].append(seq(c, nmax=24, family=1, fmax=300 if q else 2000,
                             fstep=23 if q else 3))
    huge(s, q)
    for c in NODES[1:5] + BULKY_TREES[:2] if q else NODES + BULKY_TREES:
        s["jobs"].append(caps(*c, deep=0 if q else 1))
    for k in ("int16_t", "uint32_t", "int64_t", "double"):
        s["jobs"].append(search(k, cap=9, scale=3, tree=1, near=(2 if "64" in k or "32" in k else 3) if q else 4))
    s["bounds"] = (
        f"every tree shape reachable with at most {n} elements; in each, every lookup "
        "for every present key, every erased key and every gap between them")


def spec_C03(s, q):
    n = 24 if q else 27
    for i, c in enumerate(SMALL):
        s["jobs"].append(seq(c, nmax=n, zigzag=5 if q else 7, macro=1,
                             leaves=10 if q else 16,
                             family=1, fmax=120 if q else 400, fstep=23 if q else 5,
                             **tall(q, i + 2)))
    for i, c in enumerate(MEDIUM):
        s["jobs"].append(seq(c, nmax=34 if q else 42, zigzag=3, macro=1,
                             leaves=22 if q else 30, **tall(q, i)))
    for c in LARGE:
        s["jobs"].append(seq(c, nmax=24, zigzag=4, family=1, fmax=300 if q else 2000,
                             fstep=23 if q else 3))
    huge(s, q)
    s["bounds"] = (
        f"every tree shape reachable with at most {n} elements; in each, every walk, "
        f"and every string of {5 if q else 7} steps from every element")


def spec_C04(s, q):
    n = 22 if q else 26
    for i, c in enumerate(SMALL):
        s["jobs"].append(seq(c, nmax=n, ranges=n, macro=1, mprobes=1,
                             leaves=10 if q else 14, **tall(q, i + 3)))
    for i, c in enumerate(MEDIUM):
        s["jobs"].append(seq(c, nmax=34 if q else 42, ranges=24 if q else 34, macro=1,
                             mprobes=1, leaves=22 if q else 30, **tall(q, i)))
    for c in LARGE:
        s["jobs"].append(seq(c, nmax=24, ranges=12, family=1,
                             fmax=300 if q else 2000, fstep=23 if q else 3))
    huge(s, q)
    for c in NODES[1:5] + BULKY_TREES[1:2] if q else NODES + BULKY_TREES:
        s["jobs"].append(caps(*c, deep=0 if q else 1))
    s["bounds"] = (
        f"every tree shape reachable with at most {n} elements; in each, every range, "
        "every single erasure and 35 keep/erase patterns; nodes of up to 1024 (thorough: 65536) "
        "entries, filled in five orders, erased along an iteration in five ways")


def multi(al, defs=None, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "ndebug", "asan", "budget")}
    d = {"AL": al}
    d.update(defs or {})
    return Job("btree_multi.cpp", d, kv(**kw), ldflags=WRAP, **extra)


def dense(key, val, mode, cap=6, cap2=9, cmp=LESS, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in
             ("opt", "avx", "ndebug", "asan", "budget", "must_compile")}
    d = {"KEY": key, "VAL": val, "MODE": mode, "CMP": cmp, "CAP": cap, "CAP2": cap2}
    return Job("dense.cpp", d, kv(**kw), **extra)


def dlarge(key, val, mode, cap, cmp=LESS, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "asan")}
    kw.setdefault("all", min(cap, 72))
    d = {"KEY": key, "VAL": val, "MODE": mode, "CMP": cmp, "CAP": cap}
    return Job("dense_large.cpp", d, kv(**kw), **extra)


STR = {"KEY": "std::string", "VAL": "std::shared_ptr<uint32_t>"}
OKEY = {"KEY": "dom::OKey", "VAL": "uint32_t"}
BIGN = {"LN": 12, "IN": 9, "MODE": "SIMD", "VAL": "uint64_t"}


def spec_C05(s, q):
    for al in range(9):
        s["jobs"].append(multi(al, slots=2, depth=2 if q else 3))
        for kw in ({"pairs": 5 if q else 6, "again": 1},
                   {"pairs": 10, "lack": 2 if q else 3, "again": 1},
                   {"pairs": 17, "lack": 2, "second": 1 if q else 2},
                   {"pairs": 28, "lack": 1 if q else 2, "second": 1}):
            s["jobs"].append(multi(al, **kw))
    s["jobs"].append(multi(3, pairs=7 if q else 9))
    for al in (9, 10):
        s["jobs"].append(multi(al, slots=2, depth=2))
        s["jobs"].append(multi(al, pairs=17, lack=2 if not q else 1, second=1))
    for al, defs in ((0, None), (4, STR)):
        s["jobs"].append(multi(al, defs, ranges=7, keys=4 if q else 7))
    s["jobs"].append(multi(2, slots=3, depth=2 if not q else 1))
    s["jobs"].append(multi(5, STR, pairs=4 if q else 6, again=1))
    s["jobs"].append(multi(5, STR, slots=2, depth=2))
    s["jobs"].append(multi(1, BIGN, slots=2, depth=2))
    s["jobs"].append(multi(1, slots=2, depth=1, asan=True, opt="-O1"))
    s["bounds"] = (
        f"two trees of 0, 1, 8, 20 and 70 elements in every combination, with equal and "
        f"with different allocators of every kind; every sequence of "
        f"{2 if q else 3} whole-container calls; two trees with every pair of subsets of "
        f"{5 if q else 6} keys and every pair of contents lacking few of 10, 17 and 28 "
        "keys, every call between them, and again after one element has changed; "
        "every sequence of up to 7 elements over 4 keys as 7 kinds of range to build a "
        "tree from; contents, iterators and references checked after every call")


def spec_C06(s, q):
    for al in (1, 2, 3, 4, 5):
        s["jobs"].append(multi(al, slots=2, depth=2 if q else 3))
        s["jobs"].append(multi(al, pairs=10, lack=2, again=1))
        s["jobs"].append(multi(al, pairs=17, lack=2, second=1))
    for al in (6, 7, 8):
        s["jobs"].append(multi(al, slots=2, depth=2))
    s["jobs"].append(multi(5, slots=3, depth=1 if q else 2))
    s["jobs"].append(multi(3, STR, slots=2, depth=2))
    for al in (9, 10):
        s["jobs"].append(multi(al, slots=2, depth=2))
        s["jobs"].append(multi(al, pairs=10, lack=1, again=1))
    s["jobs"].append(multi(0, slots=2, depth=2 if not q else 1, asan=True, opt="-O1"))
    # single trees: every shape, every modifier (the allocator is the tracking one)
    s["jobs"].append(seq(SMALL[0], nmax=18, flavours=16, ranges=16, macro=1, leaves=10,
                         **tall(q)))
    s["jobs"].append(seq(SMALL[2], nmax=15 if q else 18, flavours=10, ranges=15,
                         asan=True, opt="-O1"))
    s["bounds"] = (
        "as C05 for whole-container calls between trees with allocators of every "
        "combination of propagation traits; every tree shape of at most 18 elements and "
        "every modifier on it; each block's size, type and allocator identity checked "
        "when it is returned")


def spec_C07(s, q):
    n = 17 if q else 22
    s["jobs"].append(seq(cfg("int64_t", "dom::Obj", "Linear"), nmax=n, flavours=n,
                         ranges=n, macro=1, mprobes=1, leaves=10, **tall(q, 1)))
    s["jobs"].append(seq(cfg("std::string", "dom::Obj", "Binary", 8, 9), nmax=n - 1,
                         flavours=n - 2, ranges=n - 1))
    s["jobs"].append(seq(cfg("uint32_t", "std::shared_ptr<uint32_t>", "SIMD", 9, 8),
                         nmax=n, flavours=n - 2, ranges=n))
    s["jobs"].append(seq(cfg("dom::OKey", "uint32_t", "Binary"), nmax=n, flavours=n - 2,
                         ranges=n))
    s["jobs"].append(seq(cfg("dom::OKey", "dom::Obj", "Linear", 9, 8), nmax=n,
                         flavours=n - 2, ranges=n, macro=1, mprobes=1, leaves=10,
                         **tall(q, 1)))
    for (v, m) in (("dom::CObj", "Linear"), ("dom::SObj", "Binary")):
        s["jobs"].append(seq(cfg("int32_t", v, m), nmax=n, flavours=n - 2, ranges=n))
    s["jobs"].append(seq(cfg("std::string", "std::string", "Binary"), nmax=14 if q else 17,
                         flavours=12, ranges=14, asan=True, opt="-O1"))
    s["jobs"].append(seq(cfg("uint32_t", "dom::Obj", "SIMD", 64, 64), nmax=24,
                         flavours=12, family=1, fmax=300, fstep=23))
    for al in (1, 3, 6):
        s["jobs"].append(multi(al, slots=2, depth=2 if q else 3))
    s["jobs"].append(multi(5, STR, slots=2, depth=2))
    s["jobs"].append(multi(2, OKEY, slots=2, depth=2))
    for (k, v, m, o) in (("int32_t", "dom::Obj", "Binary", {}),
                         ("int32_t", "dom::Obj", "SIMD", {}),
                         ("int64_t", "dom::CObj", "SIMD", {}),
                         ("uint8_t", "dom::SObj", "Linear", {}),
                         ("dom::OKey", "uint32_t", "Binary", {}),
                         ("dom::OKey", "dom::Obj", "Linear", {}),
                         ("std::string", "std::shared_ptr<uint32_t>", "Linear", {}),
                         ("std::string", "std::string", "Binary",
                          {"asan": True, "opt": "-O1"})):
        s["jobs"].append(dense(k, v, m, ops=1, split=1, whole=1, alias=1, **o))
    for (k, v, m, c) in (("dom::OKey", "dom::Obj", "Linear", 64),
                         ("float", "dom::SObj", "SIMD", 72 if q else 140)):
        s["jobs"].append(dlarge(k, v, m, c, ops=1, split=1))
    s["bounds"] = (
        f"every tree shape of at most {n} elements, every modifier on it; two trees and "
        "every pair of whole-container calls; every dense_map content over 8 keys with "
        "capacity 6 and 5 histories of its slots, every operation; dense_maps of capacity 64 "
        "and 72 at every size; every object counted and checked at its address")


def spec_C09(s, q):
    full = dict(ops=1, split=1, whole=2, iter=1, layouts=1)
    types = [("int32_t", "dom::Obj"), ("uint8_t", "uint64_t"), ("int64_t", "std::string"),
             ("double", "dom::Big"), ("uint16_t", "std::shared_ptr<uint32_t>"),
             ("float", "dom::Anchor"), ("int8_t", "dom::Obj"), ("uint64_t", "uint8_t"),
             ("std::string", "std::string"), ("dom::NoEqKey", "dom::Obj"),
             ("int16_t", "int64_t"), ("uint32_t", "dom::Wide"), ("dom::AKey", "dom::Anchor")]
    modes = ["Binary", "Linear", "SIMD"]
    for i, (k, v) in enumerate(types):
        simd = not k.startswith(("std::", "dom::"))
        for j in range(3 if not q else 1):
            m = modes[(i + j) % 3]
            if m == "SIMD" and not simd:
                m = "Binary" if j == 0 else "Linear"
            s["jobs"].append(dense(k, v, m, cmp=GREATER if i % 2 and k[0] != "d"
                                   and "dom" not in k else LESS,
                                   avx=(i % 4 != 3), **full))
    s["jobs"].append(dense("int32_t", "dom::Obj", "SIMD", ops=1, universe=6 if q else 8,
                           depth2=1, dirts=2 if q else 5))
    s["jobs"].append(dense("std::string", "uint32_t", "Linear", cap=5, ops=1,
                           universe=6 if q else 7, depth2=1, dirts=2 if q else 5))
    for (k, v, m) in (("int32_t", "uint32_t", "SIMD"), ("uint16_t", "dom::Obj", "Binary")):
        s["jobs"].append(dense(k, v, m, cap=4, cap2=5, ops=1, universe=5, depth2=2,
                               dirts=1 if q else 3))
    for k in ("uint16_t", "int32_t", "uint64_t", "float"):
        s["jobs"].append(search(k, cap=7, scale=4 if q else 5, near=3))
    s["jobs"].append(dense("int16_t", "uint32_t", "SIMD", ops=1, universe=6, depth2=1,
                           dirts=1, layouts=1))
    s["jobs"].append(dense("int64_t", "uint64_t", "SIMD", cap=10, cap2=12, ops=1, iter=1,
                           universe=12, dirts=2 if q else 5))
    s["jobs"].append(dense("uint32_t", "dom::Obj", "Binary", cap=1, cap2=2, **full))
    s["jobs"].append(dense("int16_t", "dom::Obj", "SIMD", cap=2, cap2=3, **full))
    s["jobs"].append(dense("int32_t", "std::string", "Linear", cap=5, cap2=6, asan=True,
                           opt="-O1", **full))
    for (k, v, m, c, o) in (("int32_t", "dom::Obj", "SIMD", 64, {}),
                            ("std::string", "dom::Big", "Binary", 40, {"cmp": GREATER}),
                            ("int64_t", "uint32_t", "SIMD", 130, {"all": 130 if not q else 40}),
                            ("float", "uint64_t", "SIMD", 72, {"cmp": GREATER}),
                            ("uint16_t", "uint32_t", "SIMD", 300, {"all": 20 if q else 300}),
                            ("uint8_t", "uint8_t", "SIMD", 120,
                             {"all": 20 if q else 120, "cmp": GREATER}),
                            ("int32_t", "std::string", "Linear", 33, {"avx": False})):
        s["jobs"].append(dlarge(k, v, m, c, ops=1, **o))
    for c in CAPS + BULKY:
        s["jobs"].append(caps(*c, deep=0 if q else 1))
    s["bounds"] = (
        "every content of a dense_map of capacity 6 (also 1, 2, 5, 10) over capacity+2 "
        "keys, over five histories of its unused slots; in each, every operation with "
        "every key, pairs of operations, every iterator expression, and every "
        "whole-map call between two maps; capacities 33 to 300 at every size (beyond the "
        "first " + ("20 to 72" if q else "72 to 300") + ", at the sizes around multiples of "
        "16) with every operation at every position")


def spec_C10(s, q):
    types = [("int32_t", "dom::Obj", "Binary"), ("std::string", "std::string", "Linear"),
             ("double", "dom::Big", "SIMD"), ("uint8_t", "uint8_t", "SIMD"),
             ("int64_t", "std::shared_ptr<uint32_t>", "SIMD"),
             ("dom::NoEqKey", "dom::Obj", "Binary"), ("dom::AKey", "dom::Anchor", "Linear")]
    for i, (k, v, m) in enumerate(types):
        s["jobs"].append(dense(k, v, m, split=1, cap=6, cap2=9, avx=i != 2))
        if not q or i < 3:
            s["jobs"].append(dense(k, v, m, split=1, cap=12 if q else 18,
                                   cap2=8 if q else 20))
    s["jobs"].append(dense("uint16_t", "dom::Obj", "SIMD", split=1, cap=1, cap2=2))
    s["jobs"].append(dense("int32_t", "dom::Obj", "SIMD", split=1, cap=9, cap2=2))
    s["jobs"].append(dense("std::string", "uint32_t", "Linear", split=1, cap=10, cap2=4))
    s["jobs"].append(dense("uint8_t", "dom::Obj", "Binary", split=1, cap=2, cap2=11))
    s["jobs"].append(dense("int32_t", "uint64_t", "Linear", split=1,
                           cap=17 if q else 33, cap2=14 if q else 40))
    s["jobs"].append(dense("std::string", "std::string", "Binary", split=1, cap=5, cap2=7,
                           asan=True, opt="-O1"))
    for (k, v, m, c) in (("std::string", "dom::Big", "Binary", 40),
                         ("int32_t", "dom::Obj", "SIMD", 64),
                         ("uint16_t", "uint32_t", "SIMD", 300)):
        s["jobs"].append(dlarge(k, v, m, c, split=1, all=c if c < 72 else 12 if q else 64))
    for c in CAPS[1:5] + BULKY if q else CAPS + BULKY:
        s["jobs"].append(caps(*c, deep=0 if q else 1))
    s["bounds"] = (
        "every source size, target size, split position and count (including counts "
        "beyond the source and SIZE_MAX) for pairs of capacities up to " + ("17/14" if q else "33/40") + ", over 16 "
        "combinations of slot histories; capacities 40, 64 and 300 likewise at every size "
        "(300: sizes around multiples of 16)")


def spec_C11(s, q):
    n = 18 if q else 23
    two = [("dom::ClassKey", "Binary", 8, 8, "dom::ByMajor"),
           ("dom::ClassKey", "Linear", 9, 8, "dom::ByMajorDesc"),
           ("dom::CaseKey", "Binary", 8, 9, "dom::CaseKeyLess"),
           ("dom::CaseKey", "Linear", 8, 8, "dom::CaseKeyGreater"),
           ("dom::LyingKey<true>", "Binary", 8, 8, LESS),
           ("dom::LyingKey<false>", "Linear", 8, 8, LESS),
           ("int32_t", "Linear", 8, 8, "dom::CustomDesc<KEY>"),
           ("std::string", "Binary", 8, 8, GREATER),
           ("std::string", "Binary", 9, 8, "std::less<>"),
           ("uint16_t", "Linear", 8, 8, "std::greater<>"),
           ("int64_t", "Binary", 8, 9, "dom::IntLess<KEY>"),
           ("double", "SIMD", 8, 8, LESS),
           ("float", "SIMD", 8, 8, GREATER)]
    for (k, m, ln, inn, c) in two:
        s["jobs"].append(seq(cfg(k, "uint32_t", m, ln, inn, c), nmax=n, flavours=n,
                             ranges=12, macro=1, leaves=9, **tall(q, 1)))
        s["jobs"].append(dense(k, "uint32_t", m, cmp=c, ops=1, split=1, whole=1))
    for m in ("Binary", "Linear"):
        s["jobs"].append(seq(cfg("dom::NoEqKey", "dom::Obj", m), nmax=n, flavours=n,
                             ranges=12, must_compile=True))
        s["jobs"].append(dense("dom::NoEqKey", "dom::Obj", m, ops=1, split=1, whole=1,
                               must_compile=True))
    s["bounds"] = (
        f"every tree shape of at most {n} elements (dense_map: every content over 8 "
        "keys), each operation with keys equivalent to stored ones under the comparator "
        "but different (or equal to everything, or nothing) under ==, for thirteen orders and "
        "a key type without ==")


def spec_C17(s, q):
    n = 11 if q else 15
    for c in (cfg("int64_t", "dom::Obj", "Linear"),
              cfg("int32_t", "dom::Obj", "SIMD", 8, 9, GREATER),
              cfg("std::string", "dom::Obj", "Binary", 8, 8)):
        s["jobs"].append(seq(c, nmax=n + 7, faults=n, faults_all=n))
    s["jobs"].append(seq(cfg("uint64_t", "dom::Obj", "SIMD"), nmax=20 if q else 24,
                         faults=20 if q else 24, faults_all=0))
    s["jobs"].append(seq(cfg("int64_t", "std::string", "Linear"), nmax=n + 3, faults=n))
    s["jobs"].append(seq(cfg("int64_t", "dom::Obj", "Linear"), bfs=0, macro=1,
                         mfaults=1, leaves=18 if q else 24))
    for (k, v, m, cap) in (("int32_t", "dom::Obj", "Binary", 6),
                           ("int64_t", "dom::Obj", "SIMD", 8),
                           ("std::string", "dom::Obj", "Linear", 5)):
        s["jobs"].append(dense(k, v, m, cap=cap, cap2=cap + 2, faults=1))
    for (k, v, m, c) in (("int32_t", "dom::Obj", "SIMD", 64),
                         ("std::string", "dom::Obj", "Binary", 40 if q else 72)):
        s["jobs"].append(dlarge(k, v, m, c, faults=1))
    s["level"] = "fault_enumeration"
    s["rule"] = ("for every enumerated state and call, the k-th allocation (and the k-th "
                 "throwing value construction) fails, for k = 0, 1, ... until the call "
                 "completes; a run in which no fault fired is not counted as nontrivial")
    s["bounds"] = (
        f"every tree shape of at most {n} elements, every insertion, erasure, clear, copy "
        "and copy assignment, every failure point (allocations, constructions from an "
        "argument or a copy, default constructions); every dense_map content over capacity+2 "
        "keys, every operation, every failure point")


def spec_C18(s, q):
    n = 14 if q else 18
    for c in (cfg("int64_t", "int64_t", "Linear"),
              cfg("std::string", "std::string", "Binary"),
              cfg("uint64_t", "dom::Obj", "SIMD", 8, 9, GREATER),
              cfg("int32_t", "std::string", "SIMD", 9, 8),
              cfg("uint32_t", "dom::Big", "Binary", 8, 8, "dom::CustomDesc<KEY>"),
              cfg("std::string", "dom::Obj", "Linear", 8, 8, GREATER)):
        s["jobs"].append(seq(c, nmax=n + 4, alias=n))
    s["jobs"].append(seq(cfg("std::string", "std::string", "Linear"), nmax=13, alias=12,
                         asan=True, opt="-O1"))
    for (k, v, m) in (("int32_t", "int32_t", "Binary"), ("std::string", "std::string", "Linear"),
                      ("int64_t", "dom::Obj", "SIMD"), ("uint8_t", "uint8_t", "SIMD"),
                      ("std::string", "dom::Obj", "Binary")):
        s["jobs"].append(dense(k, v, m, alias=1))
    for (k, v, m, c) in (("std::string", "std::string", "Linear", 40 if q else 64),
                         ("int64_t", "dom::Obj", "SIMD", 72),
                         ("dom::OKey", "uint32_t", "Binary", 33)):
        s["jobs"].append(dlarge(k, v, m, c, alias=1))
    s["bounds"] = (
        f"every tree shape of at most {n} elements; every insertion flavour at every gap "
        "and on every element, with the value (or, where types allow, the key) being a "
        "reference to every stored element; every erasure by a reference to the stored "
        "key; every dense_map content over 8 keys, and dense_maps of capacity 33 to 72 at "
        "every size, likewise")


def spec_C20(s, q):
    cl = "dom::CountLess<KEY>"
    for (k, v, m, ln, inn) in (("int64_t", "uint32_t", "Binary", 8, 8),
                               ("uint32_t", "uint64_t", "Linear", 8, 9),
                               ("int32_t", "dom::Obj", "Binary", 9, 8),
                               ("std::string", "uint32_t", "Binary", 8, 10)):
        s["jobs"].append(seq(cfg(k, v, m, ln, inn, cl), nmax=22 if q else 27, cost=1,
                             macro=1, leaves=18 if q else 24, family=1,
                             fmax=400 if q else 1500, fstep=37 if q else 7,
                             **tall(q, ln)))
    s["jobs"].append(seq(cfg("int64_t", "uint64_t", "Binary", 16, 16, cl),
                         nmax=34 if q else 42, cost=1, macro=1, leaves=22 if q else 30,
                         **tall(q, 0)))
    for (k, v, ln, inn) in (("int64_t", "uint64_t", 64, 64), ("int32_t", "uint32_t", 32, 20),
                            ("uint64_t", "dom::Big", 16, 128)):
        s["jobs"].append(seq(cfg(k, v, "Binary", ln, inn, cl), nmax=20, cost=1, family=1,
                             fmax=1200 if q else 4000, fstep=97 if q else 11))
    big = 100000 if q else 300000
    for (k, v, m, ln, inn, n) in (("int64_t", "uint64_t", "Linear", 8, 8, big),
                                  ("int32_t", "uint32_t", "SIMD", 9, 8, big),
                                  ("uint32_t", "uint64_t", "Binary", 16, 12, big),
                                  ("uint64_t", "uint32_t", "SIMD", 64, 64, 4 * big)):
        s["jobs"].append(Job("steps.cpp", cfg(k, v, m, ln, inn), kv(
            big=n, skip=(7 if n == big else 29) if q else 1 if n == big else 5),
            cflags=["-fsanitize-coverage=trace-pc"]))
    s["bounds"] = (
        f"every tree shape of at most {22 if q else 27} elements and every internal "
        "structure up to the given number of leaves; build/drain/refill programs up to "
        "the given size; nodes, height, comparisons and allocations counted in each; "
        "executed steps (basic blocks) of every single call of programs of up to "
        f"{4 * big} elements, six orders of building and of erasing, four ways of "
        "erasing")


def search(key, cap=72, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "asan", "cflags")}
    return Job("dense_search.cpp", {"KEY": key, "CAP": cap}, kv(**kw), **extra)


PRIMS = ["int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t",
         "uint64_t", "float", "double"]


def spec_C08(s, q):
    for i, k in enumerate(PRIMS):
        s["jobs"].append(search(k, subsets=1, tree=1, stale_all=0 if q else 1,
                                bases=(0 if q else 97) if "16" in k else 6 if q else 1))
        s["jobs"].append(search(k, subsets=1, tree=1, avx=False, step=2 if q else 1,
                                bases=(0 if q else 997) if "16" in k else 12 if q else 2))
    # keys whose differences or narrowed copies collide
    for k in PRIMS[2:]:
        s["jobs"].append(search(k, cap=9, scale=4 if q else 5, tree=1,
                                near=(2 if "64" in k or "32" in k else 3) if q else 4))
    # char: a type of its own, signed or not as the compiler is told
    for fl in ("-fsigned-char", "-funsigned-char"):
        s["jobs"].append(search("char", subsets=1, tree=1, bases=6 if q else 1,
                                cflags=[fl]))
    for k, c in (("int8_t", 33), ("uint8_t", 15), ("int16_t", 17), ("uint16_t", 9),
                 ("int32_t", 7), ("uint32_t", 9), ("int64_t", 3), ("uint64_t", 5),
                 ("float", 11), ("double", 6)):
        s["jobs"].append(search(k, cap=c, step=3 if q else 1, opt="-O1", asan=True,
                                stale_all=1, subsets=1, bases=12 if "16" not in k else 0))
    for i, (k, c) in enumerate((("int8_t", 256), ("uint8_t", 255), ("int16_t", 300),
                                ("uint16_t", 260), ("int32_t", 270), ("uint32_t", 300),
                                ("int64_t", 259), ("uint64_t", 300), ("float", 300),
                                ("double", 270))):
        s["jobs"].append(search(k, cap=c, lengths=1, avx=i % 3 != 2 or not q))
        if not q:
            s["jobs"].append(search(k, cap=c, lengths=1, avx=False))
    s["bounds"] = (
        "8-bit keys: every window of consecutive keys (also every second, every third) "
        "of every length up to 72, every query; other types: every window over the "
        "boundary values (powers of two and their neighbours, extremes, for floats "
        "denormals, infinities and both zeros) and dense windows around them, every "
        "query; both orders, three modes, AVX2 and scalar code, four kinds of stale "
        "slots; capacities of 255 to 300 at the lengths around multiples of 32")


STATS = {"ALLOCATOR_STATS": 1}


def pool(stats=False, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "ndebug", "asan")}
    return Job("pool.cpp", STATS if stats else {}, kv(**kw), ldflags=WRAP, **extra)


def trees(fam, stats=False, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "ndebug", "asan")}
    d = {"FAM": fam}
    if stats:
        d.update(STATS)
    return Job("pool_trees.cpp", d, kv(**kw), ldflags=WRAP, **extra)


def factories(stats=False, **kw):
    """Every way of making pool allocators x sizes x page kinds x outcomes."""
    extra = {k: kw.pop(k) for k in list(kw) if k in ("opt", "avx", "ndebug", "asan")}
    return Job("factories.cpp", STATS if stats else {}, kv(**kw), ldflags=WRAP, **extra)


POOL_ASSUME = [
    "mmap, munmap and madvise are replaced by stand-ins that record each request, decide "
    "its outcome by the enumerated schedule and otherwise map ordinary memory; no NUMA "
    "library in the build",
    "one thread per pool (the pools document that they are not thread-safe)",
]


def spec_C12(s, q):
    s["assumptions"] = POOL_ASSUME
    for st in (False, True):
        s["jobs"].append(pool(st, wide=3, sizes=4200))
        s["jobs"].append(pool(st, deep=7 if q else 9, multi=3, ndebug=st))
        s["jobs"].append(pool(st, long=1, classes=1, multi_outcomes=3 if q else 4,
                              outcomes=3 if q else 4))
    s["jobs"].append(pool(handles=3, slots=2 if q else 3))
    s["jobs"].append(pool(True, wide=2, deep=5, multi=2, classes=1, asan=True, opt="-O1"))
    for fam in range(4):
        s["jobs"].append(trees(fam, depth=2 if q else 3))
    s["jobs"].append(pool(False, giant=3 if q else 4))
    s["jobs"].append(factories(trees=1, kinds=16))
    s["jobs"].append(factories(True, trees=1, kinds=16))
    s["bounds"] = (
        "requests for 0, 2, 3, ... SIZE_MAX objects from each allocator; "
        "blocks and regions of up to 12 GiB in every sequence of 3 calls, 140000 blocks at "
        "once, 700 regions; "
        "every sequence of 3 requests over sizes and alignments around every boundary "
        "(block, class, page, growth size, overflow), every sequence of "
        f"{7 if q else 9} requests and returns over a core of sizes, 90-call programs; "
        "every size from 8 to 4200 bytes in a short program; every block filled with its own pattern, which is verified until its return")


def spec_C13(s, q):
    s["assumptions"] = POOL_ASSUME
    for st in (False, True):
        s["jobs"].append(pool(st, outcomes=4, bits=4, wide=2, deep=7,
                              sizes=4200))
        s["jobs"].append(pool(st, multi_outcomes=4, multi=3))
    s["jobs"].append(pool(outcomes=3, bits=6, long=1))
    s["jobs"].append(pool(multi_outcomes=3, bits=6))
    s["jobs"].append(pool(handles=3, slots=2 if q else 3))
    if not q:
        s["jobs"].append(pool(handles=4, slots=2))
        s["jobs"].append(pool(outcomes=5, bits=4))
        s["jobs"].append(pool(multi_outcomes=5, bits=4))
    for fam in range(4):
        s["jobs"].append(trees(fam, depth=2 if q else 3, regular_patterns=16 if q else 64,
                               rounds=2))
    s["jobs"].append(pool(False, giant=3 if q else 4))
    s["bounds"] = (
        "blocks and regions of up to 12 GiB in every sequence of 3 calls, 140000 blocks at "
        "once, 700 regions; "
        "every sequence of 4 requests and returns x every pattern of failure over the "
        "first mappings, longer sequences without failures, trees in pools under every "
        "pattern; every size from 8 to 4200 bytes used up, returned and used again; after "
        "every call the regions mapped, the freed blocks reused and the "
        "growth are compared with the model")


def spec_C14(s, q):
    s["assumptions"] = POOL_ASSUME
    for st in (False, True):
        s["jobs"].append(pool(st, outcomes=3 if q else 4, bits=6 if q else 5))
        s["jobs"].append(pool(st, multi_outcomes=3 if q else 4, bits=6 if q else 5))
        for fam in range(4):
            s["jobs"].append(trees(fam, st, depth=2 if q else 3,
                                   huge_patterns=16 if q else 64))
    s["jobs"].append(pool(wide=2, long=1, deep=5, classes=1))
    s["jobs"].append(pool(handles=3, slots=2))
    for al in (6, 7, 8):
        s["jobs"].append(multi(al, slots=2, depth=1 if q else 2))
    s["jobs"].append(pool(False, giant=3 if q else 4))
    s["jobs"].append(factories(trees=1 if q else 3, ndebug=True))
    s["bounds"] = (
        "every factory function with every number of arguments; "
        "blocks and regions of up to 12 GiB in every sequence of 3 calls, 140000 blocks at "
        "once, 700 regions; "
        "every pattern of success and failure over the first 4 to 6 hugepage requests (and "
        "all later ones) x every sequence of calls to a depth, pools with hugepages on and "
        "off; containers in pools give the same results under every pattern")


def spec_C15(s, q):
    s["assumptions"] = POOL_ASSUME
    for st in (False, True):
        s["jobs"].append(pool(st, multi=3, classes=1, sizes=400))
        s["jobs"].append(pool(st, multi_outcomes=3 if q else 4))
        s["jobs"].append(pool(st, handles=3, slots=3, family=2))
        s["jobs"].append(trees(2, st, depth=2 if q else 3))
        s["jobs"].append(trees(3, st, depth=2 if q else 3))
    if not q:
        s["jobs"].append(pool(multi=4))
        s["jobs"].append(pool(handles=4, slots=2, family=2))
    s["jobs"].append(pool(multi=2, classes=1, handles=2, slots=3, family=2, asan=True,
                          opt="-O1"))
    s["jobs"].append(pool(True, giant=3 if q else 4))
    s["bounds"] = (
        "blocks and regions of up to 12 GiB in every sequence of 3 calls, 140000 blocks at "
        "once, 700 regions; "
        "every size around every class boundary up to 32 MB, every sequence of 3 requests "
        "and returns over sizes within and across classes, every sequence of 3 handle "
        "operations (copy, rebind, move, assign, swap, destroy, allocate, free) over 3 "
        "handles; std containers and trees sharing one pool")


def spec_C16(s, q):
    s["assumptions"] = POOL_ASSUME
    for fam in (0, 1, 2):
        s["jobs"].append(pool(handles=3, slots=3, family=fam))
        s["jobs"].append(pool(True, handles=3, slots=2, family=fam))
        if not q:
            s["jobs"].append(pool(handles=4, slots=2, family=fam))
        s["jobs"].append(trees(fam, depth=2 if q else 3))
        s["jobs"].append(trees(fam, True, depth=2 if q else 3))
        s["jobs"].append(multi(6 + fam, slots=2, depth=2))
        s["jobs"].append(pool(handles=2, slots=3, family=fam, asan=True, opt="-O1"))
    s["jobs"].append(factories(trees=2 if q else 3, kinds=6))
    s["jobs"].append(factories(True, trees=3, kinds=25))
    s["bounds"] = (
        "every constructor and factory function with every number of arguments x every "
        "combination of six sizes x pages x outcomes, a tree filled, emptied and refilled "
        "through each; "
        "every sequence of 3 handle operations (copy, rebind, move, assign, swap, destroy, "
        "allocate, free, compare) over 3 handles of each allocator family; two trees with "
        "node types of different sizes sharing pools, every sequence of calls to a depth")


def spec_C21(s, q):
    s["assumptions"] = POOL_ASSUME
    s["jobs"].append(pool(True, wide=3, sizes=4200))
    s["jobs"].append(pool(True, deep=7 if q else 9, multi=3, classes=1))
    s["jobs"].append(pool(True, outcomes=3 if q else 4, multi_outcomes=3 if q else 4))
    s["jobs"].append(pool(True, long=1, ndebug=True))
    s["jobs"].append(pool(True, handles=3, slots=2 if q else 3))
    s["jobs"].append(pool(wide=2, deep=5, multi=3, outcomes=3, multi_outcomes=3))
    for fam in range(4):
        s["jobs"].append(trees(fam, True, depth=2 if q else 3))
        s["jobs"].append(trees(fam, depth=1 if q else 2))
    s["jobs"].append(pool(True, giant=3 if q else 4))
    s["bounds"] = (
        "blocks and regions of up to 12 GiB in every sequence of 3 calls, 140000 blocks at "
        "once, 700 regions; "
        "every statistic compared with the model after every call of every sequence: all "
        f"sequences of 3 requests over all sizes, {7 if q else 9} over a core, 90-call "
        "programs, every size from 8 to 4200 bytes, every pattern of mapping failures; "
        "statistics compiled in and out")


def spec_C22(s, q):
    n = 22 if q else 26
    for (m, ln, inn, c) in (("Linear", 8, 8, LESS), ("Binary", 8, 9, GREATER),
                            ("Binary", 9, 8, LESS), ("Linear", 10, 10, "dom::CustomDesc<KEY>")):
        s["jobs"].append(seq(cfg("dom::CKey", "dom::Cnt", m, ln, inn, c, COUNT_FORMS=1),
                             nmax=n, forms=n))
    s["jobs"].append(seq(cfg("dom::CKey", "dom::Cnt", "Binary", 8, 8, COUNT_FORMS=1),
                         bfs=0, macro=1, leaves=16 if q else 22, mprobes=1, forms=400))
    s["jobs"].append(seq(cfg("dom::CKey", "dom::Cnt", "Linear", 16, 12, COUNT_FORMS=1),
                         nmax=19 if q else 24, forms=40))
    for m in ("Linear", "Binary"):
        for cap in (1, 2, 5, 7):
            s["jobs"].append(Job("dense_counts.cpp",
                                 {"MODE": m, "CAP": cap if q else cap + 1,
                                  "CMP": GREATER if cap % 2 else LESS}))
    s["jobs"].append(Job("dense_counts.cpp", {"MODE": "Binary", "CAP": 5}, opt="-O1",
                         asan=True))
    s["bounds"] = (
        f"every tree shape of at most {n} elements (and internal structures up to the given "
        "number of leaves), every dense_map content over capacity+2 keys: in each, 35 "
        "combinations of insertion call and argument forms (lvalue, rvalue, const, other "
        "types, several arguments, pairs, piecewise, hints) for every present key and every "
        "gap, and every lookup there; all constructions, copies, moves, assignments, uses of arguments and node "
        "allocations counted")


FP_LD = ["-fsanitize=thread", "-nodefaultlibs",
         "-Wl,--wrap=mmap,--wrap=munmap,--wrap=madvise,--wrap=memcpy,--wrap=memmove,"
         "--wrap=memset", "-lstdc++", "-lm", "-lgcc_s", "-lgcc", "-lc"]


def prints(ct, key="int64_t", val="uint64_t", mode="Linear", defs=None, **kw):
    d = {"CT": ct, "KEY": key, "VAL": val, "MODE": mode}
    d.update(defs or {})
    opt = kw.pop("opt", "-O1")
    return Job("footprint.cpp", d, kv(**kw), opt=opt, cflags=["-fsanitize=thread"],
               ldflags=FP_LD)


def spec_C19(s, q):
    n = 19 if q else 23
    for (k, v, m, d) in (("int64_t", "uint64_t", "Linear", {}),
                         ("std::string", "std::string", "Binary", {"LN": 8, "IN": 9}),
                         ("float", "uint32_t", "SIMD", {"CMP": GREATER, "LN": 9}),
                         ("int32_t", "std::string", "SIMD", {}),
                         ("uint64_t", "uint64_t", "Binary", {"LN": 64, "IN": 64})):
        if k == "float" or k == "int32_t":
            # (positions are multiples of powers of two: keep to a 64 bit key)
            k = "double" if k == "float" else "int64_t"
        s["jobs"].append(prints(1, k, v, m, d, nmax=n if d.get("LN") != 64 else 6,
                                big=140 if q else 400))
    s["jobs"].append(prints(1, nmax=15, big=70, opt="-O2"))
    s["jobs"].append(prints(1, nmax=14, big=70, opt="-O0"))
    for ct in (2, 3, 4):
        s["jobs"].append(prints(ct, nmax=15 if q else 18, big=140 if q else 400))
    for (k, v, m) in (("int64_t", "uint64_t", "SIMD"), ("std::string", "std::string", "Linear"),
                      ("int32_t", "std::string", "Binary"), ("uint8_t", "uint8_t", "SIMD"),
                      ("float", "uint64_t", "SIMD"), ("int16_t", "uint32_t", "SIMD")):
        s["jobs"].append(prints(0, k, v, m, {"CAP": 5 if q else 7}))
    s["assumptions"] = [
        "what the compiler's thread-sanitizer instrumentation reports (every load and store "
        "of the headers' code) plus memcpy, memmove and memset; library code outside the "
        "headers is covered by comparing the containers' bytes before and after each "
        "reader", "thread-local storage counts as a thread's own memory",
        "operator new, mmap and exceptions are thread-safe"]
    s["rule"] = ("an operation counts as a transition when it ran with its footprint "
                 "recorded; calls whose footprints do not conflict commute, so one schedule "
                 "per set of calls represents all of them")
    s["bounds"] = (
        f"every leaf structure of at most {n} elements plus trees of up to "
        f"{140 if q else 400} elements; in each, every reader with every key class and "
        "every modifier, with a second container of the same type alive; std::allocator "
        "and three pool families; every dense_map content over capacity+1 keys")


VARIANTS = [  # name, flags, leaf and internal node size, allocator kind, other defines
    ("-O2 AVX2 8/8", "-O2 -mavx2 -mfma", 8, 8, 0, ""),
    ("-O0 8/8", "-O0", 8, 8, 0, ""),
    ("-O3 AVX2 NDEBUG 8/8", "-O3 -mavx2 -mfma -DNDEBUG", 8, 8, 0, ""),
    ("-O2 NDEBUG 64/64", "-O2 -DNDEBUG", 64, 64, 0, ""),
    ("-O1 AVX2 stats HugePageAllocator 9/8", "-O1 -mavx2 -mfma", 9, 8, 1,
     "-DALLOCATOR_STATS"),
    ("-O2 AVX2 NDEBUG TwoPoolPolicy 8/10", "-O2 -mavx2 -mfma -DNDEBUG", 8, 10, 2, ""),
    ("-O1 stats MultiSize default sizes", "-O1", "DEF", "DEF", 3, "-DALLOCATOR_STATS"),
    ("-O3 NDEBUG stats HugePageAllocator 16/12", "-O3 -DNDEBUG", 16, 12, 1,
     "-DALLOCATOR_STATS"),
    ("-Os AVX2 NDEBUG 8/8", "-Os -mavx2 -mfma -DNDEBUG", 8, 8, 0, ""),
    ("clang -O2 AVX2 8/9", "clang -O2 -mavx2 -mfma", 8, 9, 0, ""),
    ("-O1 library assertions 32/9", "-O1 -mavx2 -mfma -D_GLIBCXX_ASSERTIONS", 32, 9, 0, ""),
]


def config_job(n, **kw):
    vs = []
    for i, (name, fl, leaf, inn, ak, extra) in enumerate(VARIANTS[:n]):
        f = fl.split() + ([extra] if extra else [])
        f += [f"-DVARIANT={i}", f"-Dkressler=kressler_v{i}", f"-DALLOC_KIND={ak}",
              "-DVNAME=" + name]
        if leaf == "DEF":
            f += ["-DDEFAULT_SIZES"]
        else:
            f += [f"-DLEAF={leaf}", f"-DINTERNAL={inn}"]
        vs.append(("variant.cpp", f))
    return Job("config.cpp", {}, kv(**kw), variants=vs)


def spec_C23(s, q):
    for k in range(10):
        s["jobs"].append(config_job(len(VARIANTS), kind=k, small=20 if q else 40,
                                    big=130 if q else 400, step=71 if q else 23,
                                    pairs=6 if q else 12, pair_orders=1 if q else 6))
    for k in (10, 11):
        s["jobs"].append(config_job(len(VARIANTS), kind=k, depth=4 if q else 5))
    s["assumptions"] = [
        "x86-64, GCC and Clang, one machine; the configurations listed under samples",
        "calls with their preconditions met (assertions only differ otherwise)"]
    s["rule"] = ""
    s["bounds"] = (
        f"{len(VARIANTS)} build configurations x 6 trees and 4 dense_maps of different key "
        "and value types x every program: build in 6 orders to every size up to the bound, "
        "then drain in 6 orders, erase while iterating, or one (small sizes: two) further "
        "calls of any kind with every key and gap; every return value, iterator, lookup and "
        "both iteration orders compared; both pools: every program of allocations (6 sizes, 3 "
        "alignments) and deallocations up to a depth, the bytes left and the blocks reused "
        "compared")


DEFAULTED = [
    ["int32_t,uint32_t", "uint8_t,uint8_t", "std::string,Val<300>", "Key64,uint8_t",
     "uint8_t,Val<5000>"],
    ["int64_t,Val<28>", "uint64_t,double", "double,Val<124>", "Key64,Val<252>",
     "std::string,int8_t"],
    ["int16_t,float", "float,Val<60>", "uint32_t,Val<1000>", "std::string,Val<4>",
     "uint16_t,Val<70000>"],
]


def spec_C24(s, q):
    for i, l in enumerate(DEFAULTED):
        s["jobs"].append(Job("defaults.cpp", {
            "LIST": " ".join(f"X({t})" for t in l), "MAXSIZE": 2100 if i == 0 else 600,
            "GRID": (64 if not q else 40) if i == 0 else 20}, opt="-O1", avx=i != 1,
            ndebug=i == 2))
    s["jobs"].append(factories(trees=1 if q else 3))
    s["rule"] = ""
    s["assumptions"] = ["x86-64: pointers of 8 bytes"]
    s["bounds"] = (
        "every key size and every value size from 1 to 2100 bytes, every pair up to 40 x 40 "
        "(thorough: 64 x 64) and some huge ones; trees of 15 pairs of types with every default, "
        "built and drained in 4 x 4 orders; every allocator and factory with and without each "
        "optional argument")
