"""Reference model of pipit's semantics, in plain Python over case rows."""
from collections import defaultdict


def loc_key(case, r):
    l = case["locs"][r[3]]
    return (l[0], l[1]) if case.get("thread") else l[0]


def by_loc(case):
    d = defaultdict(list)
    for i, r in enumerate(case["rows"]):
        d[loc_key(case, r)].append(i)
    return d


class M:
    """match: partner row or None.  parent/depth/children for matched enters."""

    def __init__(self, case):
        self.case = case
        rows = case["rows"]
        n = len(rows)
        self.match = [None] * n
        open_ = defaultdict(list)  # (loc, name) -> unpaired enters, oldest first
        for i, r in enumerate(rows):
            if r[1] == "E":
                open_[(loc_key(case, r), r[2])].append(i)
            elif r[1] == "L":
                s = open_[(loc_key(case, r), r[2])]
                if s:
                    e = s.pop()
                    self.match[e] = i
                    self.match[i] = e
        self.enters = [i for i in range(n) if rows[i][1] == "E"]
        self.calls = [i for i in self.enters if self.match[i] is not None]
        self.parent = {}
        self.depth = {}
        self.children = {i: [] for i in self.calls}
        opened = defaultdict(list)
        for i, r in enumerate(rows):
            if self.match[i] is None or r[1] not in "EL":
                continue
            o = opened[loc_key(case, r)]
            if r[1] == "E":
                self.parent[i] = o[-1] if o else None
                self.depth[i] = len(o)
                if o:
                    self.children[o[-1]].append(i)
                o.append(i)
            else:
                o.remove(self.match[i])
        # call paths over all enters (also never completed ones)
        self.path = {}
        opened = defaultdict(list)
        for i, r in enumerate(rows):
            if r[1] not in "EL":
                continue
            o = opened[loc_key(case, r)]
            if r[1] == "E":
                self.path[i] = (self.path[o[-1]] if o else ()) + (r[2],)
                o.append(i)
            elif self.match[i] is not None:
                o.remove(self.match[i])

    def ts(self, i):
        return self.case["rows"][i][0]

    def name(self, i):
        return self.case["rows"][i][2]

    def proc(self, i):
        return self.case["locs"][self.case["rows"][i][3]][0]

    def col(self, name):
        if name == "Timestamp (ns)":
            return [r[0] for r in self.case["rows"]]
        if name == "PROC":
            return [self.proc(i) for i in range(len(self.case["rows"]))]
        return self.case["cols"][name]

    def inc(self, col="Timestamp (ns)"):
        c = self.col(col)
        out = {}
        for e in self.calls:
            a, b = c[e], c[self.match[e]]
            out[e] = None if a is None or b is None else b - a
        return out

    def exc(self, col="Timestamp (ns)"):
        inc = self.inc(col)
        out = {}
        for e in self.calls:
            v = inc[e]
            for ch in self.children[e]:
                w = inc[ch]
                v = None if v is None or w is None else v - w
            out[e] = v
        return out

    def group(self, values, keys):
        """Sum of values of enters per key tuple (missing counts as nothing)."""
        out = {}
        for e in self.enters:
            k = keys(e)
            out.setdefault(k, 0)
            v = values.get(e)
            if v is not None:
                out[k] += v
        return out

    def processes(self):
        return {self.case["locs"][r[3]][0] for r in self.case["rows"]}

    def nested(self):
        """True if the completed calls of every location are properly nested."""
        opened = defaultdict(list)
        for i, r in enumerate(self.case["rows"]):
            if self.match[i] is None or r[1] not in "EL":
                continue
            o = opened[loc_key(self.case, r)]
            if r[1] == "E":
                o.append(i)
            else:
                if o[-1] != self.match[i]:
                    return False
                o.pop()
        return True

    def innermost(self):
        """Per location, the list of (start, end, enter row) slices, innermost open call."""
        out = {}
        for loc, idx in by_loc(self.case).items():
            segs, o, prev = [], [], None
            for i in idx:
                if self.match[i] is None or self.case["rows"][i][1] not in "EL":
                    continue
                t = self.ts(i)
                if o and t > prev:
                    segs.append((prev, t, o[-1]))
                if self.case["rows"][i][1] == "E":
                    o.append(i)
                else:
                    o.remove(self.match[i])
                prev = t
            out[loc] = segs
        return out
