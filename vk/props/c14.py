import os

from hypothesis import strategies as st

from vk import gen
from vk.core import Sub, note, require, scratch, sut
from vk.util import column

ASSUMPTIONS = [
    "files are comma separated with quoting as in RFC 4180, optionally a blank after each comma; names with blanks or quotes at their ends are quoted; further text columns that look like numbers or missing values are outside the property",
]


# names that look like missing values, numbers or truth values are names all the same
ODD = ["null", "NULL", "None", "NA", "nan", "n/a", "1", "07", "-3", "1e5", "2.50", "0x10", "inf", "True", "false"]
CSV_NAMES = st.one_of(
    st.sampled_from([n for n in gen.POOL if n] + ["main()", "foo(int, double)", "a b", "x#y", "C:\\d", "it's"]),
    st.sampled_from([" f", "f ", " ", "  f  ", "\tf", "f\t", '"f"', '"', 'f"', "a, b ", "l1\nl2", "f\u00a0"]),
    st.sampled_from(ODD),
    st.text(alphabet=st.characters(min_codepoint=33, max_codepoint=0x2FF, exclude_categories=("C", "Z")),
            min_size=1, max_size=6),
)
# further columns are text only if their values look like text
TEXTS = CSV_NAMES.filter(lambda n: n not in ODD and n == n.strip() and n[0] != '"' and not n[0].isdigit() and n[0] not in "+-.<#" and n.lower() not in ("inf", "infinity", "nan", "na", "n/a", "null", "none", "true", "false"))
STEP = st.sampled_from([0, 0, 0, 1, 1, 2, 7])


@st.composite
def csv_case(draw):
    thread, locs = draw(gen.locations(3, lost=False))
    names = draw(st.lists(CSV_NAMES, min_size=1, max_size=5, unique=True))
    n = draw(st.sampled_from([1, 3, 10, 40, 80]))
    prog = draw(st.lists(st.tuples(
        st.sampled_from(["Enter", "Leave", "Enter", "Leave", "Instant"]), st.integers(0, len(names) - 1),
        st.integers(0, len(locs) - 1), STEP), min_size=max(1, n // 2), max_size=n))
    rep = draw(st.sampled_from([1, 1, 2, 5]))
    unit = draw(st.sampled_from(["ns", "ns", "s", "sfrac", "nsfrac", "snano"]))
    base = draw(st.sampled_from([0, 0, 3, 1000] + [gen.EPOCH] * (unit == "ns")))
    t, rows = base, []
    for r in range(rep):
        for (et, ni, li, dt) in prog:
            t += dt
            rows.append([t, et, names[ni], locs[li][0], locs[li][1]])
    order = list(range(len(rows)))
    shuffle = draw(st.sampled_from(["none", "reverse", "perm", "perm"]))
    if shuffle == "reverse":
        order.reverse()
    elif shuffle == "perm":
        a = draw(st.lists(st.integers(0, 10**6), min_size=len(rows), max_size=len(rows)))
        order.sort(key=lambda i: (a[i], i))
    rows = [rows[i] for i in order]
    case = {"unit": unit, "rows": rows, "thread": thread, "space": draw(st.booleans()), "eol": draw(st.sampled_from(["\n", "\r\n"])),
            "last_eol": draw(st.booleans())}
    cols = ["T", "E", "N", "P"] + (["H"] if thread else [])
    case["extra"] = {}
    for name in draw(st.lists(st.sampled_from(["PAPI_TOT_INS", "Host", "level", "z col", "Flag"]), max_size=2, unique=True)):
        if name == "Host":
            vals = draw(st.lists(TEXTS, min_size=1, max_size=4))
        elif name == "Flag":
            vals = draw(st.lists(st.booleans(), min_size=1, max_size=5))
        else:
            vals = draw(st.lists(st.one_of(st.integers(-5, 10**7), st.none(), st.sampled_from([0.5, 2.25])), min_size=1, max_size=5))
        case["extra"][name] = [vals[i % len(vals)] for i in range(len(rows))]
        cols.append(name)
    case["cols"] = draw(st.one_of(st.just(cols), st.permutations(cols)))
    return case


def cell(x):
    s = "" if x is None else str(x)
    if any(c in s for c in ',"\n\r') or isinstance(x, str) and s != s.strip():
        s = '"' + s.replace('"', '""') + '"'
    return s


def stamp(case, k):
    """Text of tick k in the file and its value in nanoseconds (an exact rational as float)."""
    u = case["unit"]
    if u == "ns":
        return str(k), k
    if u == "s":
        return str(k), k * 10**9
    if u == "nsfrac":
        return "%d.%d" % (k // 2, 5 * (k % 2)), k / 2
    if u == "snano":
        return "%d.%09d" % (k // 10**9, k % 10**9), k  # ticks of one nanosecond in seconds
    return "%.6f" % (k / 10**6), k * 1000  # ticks of one microsecond in seconds


def write(case, path):
    head = {"T": "Timestamp (ns)" if case["unit"].startswith("ns") else "Timestamp (s)", "E": "Event Type", "N": "Name",
            "P": "Process", "H": "Thread"}
    sep = ", " if case["space"] else ","
    lines = [sep.join(cell(head.get(c, c)) for c in case["cols"])]
    for i, (k, et, nm, p, th) in enumerate(case["rows"]):
        v = {"T": stamp(case, k)[0], "E": et, "N": nm, "P": p, "H": th}
        lines.append(sep.join(cell(v[c]) if c in v else cell(case["extra"][c][i]) for c in case["cols"]))
    text = case["eol"].join(lines) + (case["eol"] if case["last_eol"] else "")
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def check(case):
    from pipit import Trace

    with scratch() as d:
        path = os.path.join(d, "t.csv")
        write(case, path)
        with sut("reading a CSV"):
            df = Trace.from_csv(path).events
    rows = case["rows"]
    order = sorted(range(len(rows)), key=lambda i: rows[i][0])
    require(len(df) == len(rows), "%d rows for %d records", len(df), len(rows))
    require(list(df.index) == list(range(len(rows))), "rows are not numbered from zero: %r", list(df.index)[:10])
    want = {"Event Type": [rows[i][1] for i in order], "Name": [rows[i][2] for i in order], "Process": [rows[i][3] for i in order]}
    if case["thread"]:
        want["Thread"] = [rows[i][4] for i in order]
    for name, vals in case["extra"].items():
        want[name] = [vals[i] for i in order]
    require(set(df.columns) == set(want) | {"Timestamp (ns)"}, "columns are %r", list(df.columns))
    ts = column(df, "Timestamp (ns)")
    for j, i in enumerate(order):
        w = stamp(case, rows[i][0])[1]
        require(ts[j] is not None and abs(ts[j] - w) <= (0 if case["unit"] == "ns" else 1e-12 * abs(w) + 1e-3), "row %d has time %r ns, the record says %r", j, ts[j], w)
    for name, w in want.items():
        got = column(df, name)
        for j in range(len(w)):
            require(got[j] == w[j] and (w[j] is None) == (got[j] is None) and isinstance(got[j], bool) == isinstance(w[j], bool), "row %d has %s %r, expected %r", j, name, got[j], w[j])
    note("unit:" + case["unit"])
    ticks = [r[0] for r in rows]
    if len(set(ticks)) < len(ticks):
        note("ties")
    if ticks != sorted(ticks):
        note("out-of-order")


def longer(case, n):
    """The records of a file over and over again, about n of them, each copy after or among the others."""
    rows = case["rows"]
    k = max(1, n // len(rows))
    step = (max(r[0] for r in rows) - min(r[0] for r in rows)) * (len(rows) % 3 > 0)
    out = [[r[0] + (k - 1 - j if len(rows) % 2 else j) * step, r[1], r[2] if j % 3 else "f%d" % j, r[3] + j % 40 * 1000] + list(r[4:]) for j in range(k) for r in rows]
    return dict(case, rows=out, extra={c: v * k for c, v in case["extra"].items()})


def nontrivial(case):
    ticks = [r[0] for r in case["rows"]]
    return len(set(ticks)) < len(ticks) and ticks != sorted(ticks) and len(ticks) > 16


SUBS = [
    Sub("csv", csv_case(), check, 4000, nontrivial=nontrivial,
        rule="random record lists and file layouts; non-trivial: out of order, with equal times, more than 16 records"),
    gen.grown("large", csv_case(), longer, check, nontrivial, (5000, 40000), 16, "files of tens of thousands of records"),
]
