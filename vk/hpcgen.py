"""HPCToolkit databases (meta.db, profile.db, trace.db): generator, writer and expected events."""
import os
import struct

from hypothesis import strategies as st

from vk import gen

KINDS = ["SUMMARY", "NODE", "RANK", "THREAD", "GPUDEVICE", "GPUCONTEXT", "GPUSTREAM", "CORE"]
UNKNOWN = "<unkown function>"
NAMES = st.one_of(gen.FNAMES, st.sampled_from(["main", "solve(double*)", "caf\u00e9", "\u8ba1\u7b97", "a b", "<gpu op>"]))
ENTRIES = st.sampled_from(["main thread", "application thread", "unknown entry", "e\u00e9", "thread (3)", "loop", "<main>", "a->b"])
PATHS = st.sampled_from(["src/a.c", "/usr/include/b.h", "c.cpp", "d\u00e9p/e.c", "x y.c"])


@st.composite
def database(draw, max_lines=4, ids=None, types=(0, 0, 0, 0, 1, 2, 2, 3), max_depth=6, samples=(0, 1, 3, 8, 20), full_ids=False):
    nfile = draw(st.integers(1, 3))
    nmod = draw(st.integers(1, 2))
    case = {"files": [draw(PATHS) for _ in range(nfile)], "mods": [draw(PATHS) for _ in range(nmod)]}
    case["funcs"] = []
    for _ in range(draw(st.integers(1, 5))):
        case["funcs"].append([draw(st.one_of(NAMES, NAMES, NAMES, st.none())), draw(st.one_of(st.none(), st.integers(0, nfile - 1))),
                              draw(st.sampled_from([0, 1, 17, 300, 70000, 2**31])), draw(st.one_of(st.none(), st.integers(0, nmod - 1)))])
    line = st.sampled_from([0, 1, 12, 255, 256, 65536, 3_000_000])
    # contexts: [parent index or -1 for entries, type, func|None, [file, line]|None, mod|None]
    spec = draw(st.lists(st.tuples(st.integers(0, 60), st.sampled_from(types), st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9)),
                                   st.one_of(st.none(), st.tuples(st.integers(0, 9), line)), st.one_of(st.none(), st.integers(0, 9))),
                         min_size=(nc := draw(st.sampled_from([3, 8, 8, 20]))) // 2, max_size=nc))
    nent = draw(st.integers(1, 3))
    ctx = []
    for i in range(nent):
        ctx.append({"p": -1, "t": -1, "name": draw(st.one_of(ENTRIES, ENTRIES, NAMES))})
    depth = [0] * nent
    for (p, t, f, s, m) in spec:
        # prefer recent parents so that chains grow
        p = len(ctx) - 1 - p % len(ctx) if p % 3 else p % len(ctx)
        if depth[p] >= max_depth:
            p = p % nent
        depth.append(depth[p] + 1)
        ctx.append({"p": p, "t": t, "f": None if f is None else f % len(case["funcs"]),
                    "s": None if s is None else [s[0] % nfile, s[1]], "m": None if m is None else m % nmod})
    if draw(st.integers(0, 59)) == 31:
        # a call path deeper than Python may recurse
        for k in range(draw(st.sampled_from([400, 1100]))):
            ctx.append({"p": len(ctx) - 1 if k else draw(st.integers(0, len(ctx) - 1)), "t": types[k % len(types)], "f": k % len(case["funcs"]),
                        "s": [k % nfile, k % 5] if k % 3 else None, "m": None})
    # context ids: any positive numbers, unique
    perm = draw(st.sampled_from(["seq", "rev", "sparse", "huge"]))
    n = len(ctx)
    case["ids"] = [{"seq": i + 1, "rev": n - i, "sparse": 3 * i + 5, "huge": (16777259 * i + 257) % 2**32}[perm] for i in range(n)]
    case["ctx"] = ctx
    base = draw(st.sampled_from([0, 1, 10**9, 1_600_000_000 * 10**9]))
    nl = draw(st.integers(1, max_lines))
    lines = []
    lost = "no" if full_ids else draw(st.sampled_from(["no", "no", "odd", "some"]))  # as the lines of GPU streams
    step = st.one_of(st.sampled_from([0, 0, 1, 1, 2, 5]), st.integers(0, 10**6))
    has = [True, True, True, True] if full_ids else [draw(st.integers(0, 4)) > 0, draw(st.integers(0, 5)) > 0, draw(st.integers(0, 4)) > 0, draw(st.integers(0, 2)) == 0]
    host0 = (7, 7, 7, 255, 3_000_000_000, 2**32 - 1, 2**40 + 1)[draw(st.integers(0, 69)) % 7]
    for li in range(nl):
        k = draw(st.sampled_from(list(samples)))
        sm = draw(st.lists(st.tuples(st.integers(-8, 60), step), min_size=(k + 1) // 2, max_size=k))
        t, el = draw(st.sampled_from([0, 0, 1, 4])), []
        for (c, dt) in sm:  # c < 0: idle sample
            t += dt
            el.append([t, -1 if c < 0 else (n - 1 - c % n)])
        miss = not full_ids and draw(st.integers(0, 9)) == 0
        lines.append({"el": el, "id": {"NODE": host0 + li % 2 if has[0] else None, "RANK": li // 2 if has[1] and not miss else None,
                                       "THREAD": li % 2 if has[2] and not (lost == "odd" and li % 2 or lost == "some" and k % 3 == 0) else None, "CORE": 3 * li if has[3] else None}})
    case["lines"] = lines
    case["base"] = base
    case["tail"] = draw(st.sampled_from([0, 0, 1, 100]))
    case["prof_perm"] = draw(st.booleans())
    case["summary"] = draw(st.booleans())
    return case


def longer(case, n):
    """The samples of each line over and over again, about n of them (fewer in a deep tree)."""
    n = min(n, n * 40 // len(case["ctx"]))
    lines = []
    for ln in case["lines"]:
        el = ln["el"]
        step = el[-1][0] - el[0][0] + 1 if el else 0
        lines.append(dict(ln, el=[[t + j * step, c] for j in range(max(1, n // len(el)) if el else 0) for t, c in el]))
    return dict(case, lines=lines)


def crowded(case, k):
    """k copies of the contexts and the trace lines of a database, each line in contexts of its copy."""
    ctx, n = case["ctx"], len(case["ctx"])
    k = min(k, max(20, 6000 // n))
    big = [dict(c, p=c["p"] if c["p"] < 0 else c["p"] + j * n) for j in range(k) for c in ctx]
    top = max(case["ids"])
    lines = []
    for j in range(k):
        for i, ln in enumerate(case["lines"]):
            m = j * len(case["lines"]) + i
            ids = {a: None if v is None else v + 1000 * j if a != "NODE" else v for a, v in ln["id"].items()}
            lines.append({"el": [[t, c if c < 0 else c + m % k * n] for t, c in ln["el"]], "id": ids})
    ids = [x + j * top for j in range(k) for x in case["ids"]]
    if ids[0] == 257 or max(ids) >= 2**32:
        ids = [(16777259 * i + 257) % 2**32 for i in range(len(big))]
    return dict(case, ctx=big, ids=ids, lines=lines)


# ---------------------------------------------------------------- writer
class Buf:
    def __init__(self, magic, nsec):
        self.b = bytearray(magic + bytes([4, 0]))
        self.sec = len(self.b)
        self.b += bytes(16 * nsec)

    def align(self):
        while len(self.b) % 8:
            self.b.append(0)
        return len(self.b)

    def section(self, i, start, end):
        struct.pack_into("<QQ", self.b, self.sec + 16 * i, end - start, start)

    def put(self, data):
        at = self.align()
        self.b += data
        return at


def write_meta(case, path):
    b = Buf(b"HPCTOOLKITmeta", 8)
    # common strings
    strings, sptr = [], {}
    for s in case["files"] + case["mods"] + [f[0] for f in case["funcs"] if f[0] is not None] + [c["name"] for c in case["ctx"] if c["t"] == -1]:
        if s not in sptr:
            sptr[s] = None
            strings.append(s)
    blob = b""
    off = {}
    for s in strings:
        off[s] = len(blob)
        blob += s.encode("utf-8") + b"\0"
    at = b.put(blob)
    b.section(4, at, at + len(blob))
    S = {s: at + o for s, o in off.items()}

    def table(sec, recs, size):
        h = b.put(struct.pack("<QIH", 0, len(recs), size))
        p = b.put(b"".join(recs)) if recs else b.align()
        struct.pack_into("<Q", b.b, h, p)
        b.section(sec, h, p + len(recs) * size)
        return p

    pm = table(5, [struct.pack("<IIQ", 0, 0, S[m]) for m in case["mods"]], 16)
    pf = table(6, [struct.pack("<IIQ", 0, 0, S[m]) for m in case["files"]], 16)
    # functions, before those that are used, that no context has
    pad = case.get("fpad", 0)
    pfn = 40 * pad + table(7, [struct.pack("<QQQQII", S[case["files"][0]], 0, 0, 0, i, 0) for i in range(pad)] + [struct.pack("<QQQQII", 0 if n is None else S[n], 0 if m is None else pm + 16 * m, 0x40, 0 if f is None else pf + 16 * f, ln, 0)
                    for n, f, ln, m in case["funcs"]], 40)
    # context tree
    kids = {}
    for i, c in enumerate(case["ctx"]):
        kids.setdefault(c["p"], []).append(i)
    h = b.put(struct.pack("<QHB", 0, len(kids[-1]), 32))
    ents = b.put(bytes(32 * len(kids[-1])))
    struct.pack_into("<Q", b.b, h, ents)

    def rec(i, sz, ptr):
        c = case["ctx"][i]
        flags, flex = 0, b""
        if c["f"] is not None:
            flags |= 1
            flex += struct.pack("<Q", pfn + 40 * c["f"])
        if c["s"] is not None:
            flags |= 2
            flex += struct.pack("<QII", pf + 16 * c["s"][0], c["s"][1], 0)
        if c["m"] is not None:
            flags |= 4
            flex += struct.pack("<QQ", pm + 16 * c["m"], 0x1234)
        return struct.pack("<QQIBBBBHHI", sz, ptr, case["ids"][i], flags, 1, c["t"], len(flex) // 8, 0, 0, 0) + flex

    place = {}  # context -> size and position of the array of its children
    for i in range(len(case["ctx"])):
        if i in kids:
            size = sum(len(rec(k, 0, 0)) for k in kids[i])
            place[i] = size, b.put(bytes(size))
    for i, (size, at) in place.items():
        b.b[at:at + size] = b"".join(rec(k, *place.get(k, (0, 0))) for k in kids[i])

    for n, i in enumerate(kids[-1]):
        s, p = place.get(i, (0, 0))
        struct.pack_into("<QQIHHQ", b.b, ents + 32 * n, s, p, case["ids"][i], 1, 0, S[case["ctx"][i]["name"]])
    b.section(3, h, b.align())
    # general and identifier names
    t1 = b.put("a title\0".encode())
    t2 = b.put("a d\u00e9scription\0".encode())
    g = b.put(struct.pack("<QQ", t1, t2))
    b.section(0, g, g + 16)
    ptrs = [b.put(k.encode() + b"\0") for k in KINDS]
    arr = b.put(b"".join(struct.pack("<Q", p) for p in ptrs))
    g = b.put(struct.pack("<QB", arr, len(KINDS)))
    b.section(1, g, g + 9)
    g = b.put(struct.pack("<QI", 0, 0))
    b.section(2, g, g + 12)
    with open(os.path.join(path, "meta.db"), "wb") as f:
        f.write(bytes(b.b))


def write_prof_trace(case, path):
    n = len(case["lines"])
    order = list(range(n))[::-1] if case["prof_perm"] else list(range(n))
    b = Buf(b"HPCTOOLKITprof", 2)
    tuples, blob = {}, b""
    start = b.align()
    for li in order:
        ids = [(KINDS.index(k), v) for k, v in case["lines"][li]["id"].items() if v is not None]
        tuples[li] = start + len(blob)
        blob += struct.pack("<HHI", len(ids), 0, 0)
        for k, v in ids:
            blob += struct.pack("<BBHIQ", k, 0, 0, (90 + v) & 0xFFFFFFFF, v)
    at = b.put(blob)
    assert at == start
    b.section(1, at, at + len(blob))
    pis = ([struct.pack("<32sQI4x", b"", 0, 1)] if case["summary"] else []) + [struct.pack("<32sQI4x", b"", tuples[li], 0) for li in order]
    h = b.put(struct.pack("<QIB", 0, len(pis), 48))
    p = b.put(b"".join(pis))
    struct.pack_into("<Q", b.b, h, p)
    b.section(0, h, p + 48 * len(pis))
    with open(os.path.join(path, "profile.db"), "wb") as f:
        f.write(bytes(b.b))
    pos = {li: k + (1 if case["summary"] else 0) for k, li in enumerate(order)}

    b = Buf(b"HPCTOOLKITtrce", 1)
    lo, hi = span(case)
    h = b.put(struct.pack("<QIBBHQQ", 0, n, 24, 0, 0, lo, hi))
    ths = b.put(bytes(24 * n))
    struct.pack_into("<Q", b.b, h, ths)
    for k, ln in enumerate(case["lines"]):
        el = b"".join(struct.pack("<QI", case["base"] + t, 0 if c < 0 else case["ids"][c]) for t, c in ln["el"])
        at = b.put(el)
        struct.pack_into("<IIQQ", b.b, ths + 24 * k, pos[k], 0, at, at + len(el))
    b.section(0, h, b.align())
    with open(os.path.join(path, "trace.db"), "wb") as f:
        f.write(bytes(b.b))


def span(case):
    ts = [case["base"] + t for ln in case["lines"] for t, _ in ln["el"]]
    if not ts:
        return case["base"], case["base"]
    return min(ts), max(ts) + case["tail"]


def write(case, path):
    os.makedirs(path, exist_ok=True)
    write_meta(case, path)
    write_prof_trace(case, path)


# ---------------------------------------------------------------- expectation
class Model:
    def __init__(self, case):
        self.case = case
        ctx = case["ctx"]
        self.node = []  # context -> context owning its tree node
        self.info = []  # (file, line, mod) indices as shown by children
        for i, c in enumerate(ctx):
            self.node.append(i if c["t"] in (-1, 0, 1) else self.node[c["p"]])
            if c["t"] == -1:
                self.info.append((None, None, None))
                continue
            f = None if c["s"] is None else c["s"][0]
            l = None if c["s"] is None else c["s"][1]
            m = c["m"]
            if c["t"] == 0:
                if ctx[c["p"]]["t"] == -1 and c["f"] is not None:
                    fn = case["funcs"][c["f"]]
                    f, l, m = fn[1], fn[2], fn[3]
                else:
                    pf, pl, pm = self.info[c["p"]]
                    f = pf if f is None else f
                    l = pl if l is None else l
                    m = pm if m is None else m
            self.info.append((f, l, m))
        self.parent = [None if c["t"] == -1 else self.node[c["p"]] for c in ctx]

    def name(self, i):
        c = self.case["ctx"][i]
        if c["t"] == -1:
            return c["name"]
        if c["t"] == 1:
            return "loop"
        f = c["f"]
        nm = None if f is None else self.case["funcs"][f][0]
        return UNKNOWN if nm is None else nm

    def place(self, i):
        """(file text, line text or -1)."""
        f, l, _ = self.info[i]
        return ("" if f is None else self.case["files"][f]), (None if l is None else l)

    def chain(self, i):
        """Tree nodes from the outermost to the node of context i."""
        out, k = [], self.node[i]
        while k is not None:
            out.append(k)
            k = self.parent[k]
        return out[::-1]

    def line_events(self, li):
        """[(time, 'Enter'|'Leave', context)] of one trace line."""
        lo, hi = span(self.case)
        out, cur = [], []
        for t, c in self.case["lines"][li]["el"]:
            new = [] if c < 0 else self.chain(c)
            k = 0
            while k < len(cur) and k < len(new) and cur[k] == new[k]:
                k += 1
            now = self.case["base"] + t - lo
            for x in cur[k:][::-1]:
                out.append((now, "Leave", x))
            for x in new[k:]:
                out.append((now, "Enter", x))
            cur = new
        for x in cur[::-1]:
            out.append((hi - lo, "Leave", x))
        return out
