import gc
import hashlib
import os
import shutil
import time

from hypothesis import strategies as st

from vk import hpcgen, nsysgen, otf2gen, projgen
from vk.core import Sub, fail, note, require, scratch
from vk.props import c14, c15, c19, c21, c23, c31

ASSUMPTIONS = [
    "reads are compared for the same number of reader processes (C18 compares the numbers)",
    "what a dataset contains is established by reading a copy of it in a process of its own",
    "files are counted as left open only once every trace is gone and garbage is collected",
]
NAMES = ["run", "my run", "a.b.c", "run[1]", "tr\u00e4ce", "50%", "*", "it's", "a#b", "-v", "$HOME", "${HOME}", "%(x)s", "{0}", "a,b", "a&b;c", "x=1", "a\\b"]
OURS = [p + "_NUM_THREADS" for p in ("OMP", "OPENBLAS", "MKL", "NUMBA", "NUMEXPR")] + ["PYTHONWARNINGS", "PYTHONHASHSEED", "PYTHONDONTWRITEBYTECODE"]
FILES = ("csv", "nsight")


def put(fmt, data, path):
    if fmt == "csv":
        c14.write(data, path)
    elif fmt == "nsight":
        nsysgen.write(data, path)
    elif fmt == "otf2":
        otf2gen.write(data, path)
    elif fmt == "projections":
        projgen.write(data, path)
    else:
        hpcgen.write(data, path)


def get(fmt, path, num, cct):
    from pipit import Trace

    kw = {"create_cct": True} if cct else {}
    if fmt == "csv":
        return Trace.from_csv(path)
    if fmt == "nsight":
        return c23.read(path, **kw)
    if fmt == "otf2":
        return Trace.from_otf2(path, num_processes=num, **kw)
    if fmt == "projections":
        return c19.read(path, num_processes=num, **kw)
    return c21.read(path)


def shape(tr):
    """The trace's calling context tree and the node of each event, in plain values."""
    if tr is None or tr.cct is None:
        return None
    out, todo = [], [(n, ()) for n in tr.cct.roots]
    while todo:
        n, at = todo.pop()
        out.append((at, n.get_level(), len(n.children)))
        todo += [(c, at + (i,)) for i, c in enumerate(n.children)]
    ids = [getattr(g, "_pipit_nid", None) for g in tr.events["Graph_Node"].tolist()] if "Graph_Node" in tr.events.columns else None
    return hashlib.sha1(repr((sorted(out), ids)).encode()).hexdigest()


def digest(tr):
    if tr is None:
        return "no trace"
    c = tr.cct
    ev = tr.events
    extra = shape(tr)
    if "Graph_Node" in ev.columns:
        tr.events = ev.drop(columns=["Graph_Node"])
    try:
        return "%s, tree %s, %s" % (c31.digest(tr), c is not None, extra)
    finally:
        tr.events = ev


def remove(path):
    if os.path.isdir(path) and not os.path.islink(path):
        shutil.rmtree(path)
    elif os.path.lexists(path):
        os.remove(path)


def copy(src, dst):
    if os.path.isdir(src):
        shutil.copytree(src, dst)
    else:
        shutil.copyfile(src, dst)


def contents(path):
    if os.path.isfile(path):
        names = [path]
    else:
        names = c31.files(path)
        for root, ds, _ in os.walk(path):
            names += [os.path.join(root, x) + "/" for x in ds]
    out = {}
    for f in names:
        if f.endswith("/"):
            out[f] = "directory"
        else:
            with open(f, "rb") as fh:
                out[f] = hashlib.sha1(fh.read()).hexdigest()
    return out


def spelled(path, form, isdir, d):
    name = os.path.basename(path)
    if form == "relative":
        return name
    if form == "dot":
        return os.path.join(".", name)
    if form == "slash" and isdir:
        return path + "/"
    if form == "dots":
        return os.path.join(d, "other", "..", name)
    if form == "jump":  # leads to a directory elsewhere, whose parent is this one
        return os.path.join(d, "other", "jump", "..", name)
    if form == "link":
        return os.path.join(d, "other", "link-" + name)
    return path


def children():
    out = []
    me = os.getpid()
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    s = f.read().rpartition(")")[2].split()
            except OSError:
                continue
            if int(s[1]) == me and s[0] != "Z":
                out.append(int(p))
    return out


def opened(d):
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + n)
        except OSError:
            continue
        if t.startswith(d):
            out.append(t)
    return out


def check(case):
    home, env = os.getcwd(), dict(os.environ)
    for k in OURS:  # what check.sh sets for itself would hide that a reader sets it
        os.environ.pop(k, None)
    with scratch() as d:
        d = os.path.realpath(d)
        try:
            history(case, d)
        finally:
            os.chdir(home)
            for k in set(os.environ) - set(env):
                del os.environ[k]
            os.environ.update(env)


def history(case, d):
    # every read sees one directory of slots, reached from different places
    os.mkdir(os.path.join(d, "other"))
    os.mkdir(os.path.join(d, "inner dir"))
    os.symlink(os.path.join(d, "inner dir"), os.path.join(d, "other", "jump"))
    os.chdir(d)
    ref, originals = {}, {}
    slots, held = {}, []
    reads = 0
    kept = set(children())
    for op in case["ops"]:
        i = op[1] % len(case["names"])
        path = os.path.join(d, case["names"][i])
        if op[0] == "put":
            j = op[2] % len(case["sets"])
            fmt, data = case["sets"][j]["fmt"], case["sets"][j]["data"]
            if j not in originals:
                originals[j] = os.path.join(d, "other", "set%d" % j)
                put(fmt, data, originals[j])
            remove(path)
            copy(originals[j], path)
            link = spelled(path, "link", True, d)
            remove(link)
            os.symlink(path, link)
            slots[i] = [fmt, j, False]
            continue
        if i not in slots:
            continue
        fmt, j, spoilt = slots[i]
        if op[0] == "spoil":
            names = [path] if fmt in FILES else c31.files(path)
            if names and os.path.exists(path):
                os.remove(names[op[2] % len(names)])
            slots[i][2] = True
            continue
        _, _, form, num, cct = op
        key = (j, cct and fmt != "csv", num if fmt in ("otf2", "projections") else 1)
        if key not in ref and not spoilt:
            ref[key] = c31.once(lambda: get(fmt, originals[j], num, cct), 60, False, digest) or "error NoEnd"
        before, env = contents(path), dict(os.environ)
        where = spelled(path, form, fmt not in FILES, d)
        try:
            tr = get(fmt, where, num, cct)
            out = "ok " + digest(tr)
        except Exception as e:  # noqa: BLE001
            tr, out = None, "error " + type(e).__name__
        what = "reading %s %r (%s)" % (fmt, where, "read %d of the session" % (reads + 1))
        reads += 1
        require(os.getcwd() == d, "%s changed the working directory to %r", what, os.getcwd())
        require(dict(os.environ) == env, "%s changed the environment", what)
        require(contents(path) == before, "%s changed the dataset", what)
        if spoilt:
            note("spoilt:" + ("read" if out.startswith("ok") else "error"))
        else:
            if out != ref[key]:
                fail("%s gives %s; a process of its own gives %s" % (what, out, ref[key]))
            held.append((tr, out, what))
            note("fmt:" + fmt)
            note("form:" + form)
    for tr, out, what in held:
        now = "ok " + digest(tr)
        if now != out:
            fail("the trace obtained by %s was changed by later reads: %s, then %s" % (what, out, now))
    tr = now = None
    held.clear()
    gc.collect()
    for _ in range(40):
        left = set(children()) - kept
        if not left:
            break
        time.sleep(0.05)
    else:
        fail("reading left processes behind: %d" % len(left))
    require(not opened(d), "reading left files open: %r", opened(d)[:5])




DATA = {"csv": c14.csv_case(), "otf2": otf2gen.archive(sizes=(2, 6, 14)), "projections": projgen.directory(max_pes=3, sizes=(2, 6, 15)),
        "hpctoolkit": hpcgen.database(max_lines=3), "nsight": st.booleans().flatmap(lambda n: nsysgen.report(nested=n))}
READ = st.tuples(st.just("read"), st.integers(0, 2), st.sampled_from(["plain", "relative", "dot", "slash", "dots", "jump", "link"]), st.sampled_from([1, 1, 2, 3]), st.booleans())
PUT = st.tuples(st.just("put"), st.integers(0, 2), st.integers(0, 2))


@st.composite
def session(draw):
    fmts = draw(st.lists(st.sampled_from(sorted(DATA)), min_size=1, max_size=2))
    if len(fmts) == 1:  # the same format twice: what is kept of one dataset could show up in the other
        fmts = fmts * 2
    ops = [["put", 0, 0], ["put", 1, 1]]
    ops += [list(o) for o in draw(st.lists(st.one_of(READ, READ, READ, PUT, st.tuples(st.just("spoil"), st.integers(0, 2), st.integers(0, 9))), min_size=5, max_size=10))]
    k = draw(st.integers(0, 10**9))  # a large range, for Hypothesis likes the ends of a small one
    return {"names": [NAMES[(k + 7 * i) % len(NAMES)] for i in range(draw(st.sampled_from([2, 3, 3])))],
            "sets": [{"fmt": f, "data": draw(DATA[f])} for f in fmts], "ops": ops}


@st.composite
def failing_case(draw):
    fmt = draw(st.sampled_from(["otf2", "projections"]))
    return {"fmt": fmt, "data": draw(DATA[fmt].filter(lambda c: c.get("events") or c.get("logs"))), "pick": draw(st.integers(0, 9)), "num": draw(st.lists(st.integers(1, 3), min_size=1, max_size=3)),
            "threshold": draw(st.sampled_from([(700, 10, 10), (50, 2, 2), (50, 2, 2), (50, 2, 2), (30, 3, 3), (100, 1, 2), (7, 1, 1)])),
            "between": draw(st.sampled_from([1, 1, 2, 0]))}


def failing_check(case):
    """Reads that fail, and others in between, while garbage is collected now and then in whatever thread."""
    with scratch() as d:
        good, bad = os.path.join(d, "good"), os.path.join(d, "bad")
        put(case["fmt"], case["data"], good)
        copy(good, bad)
        names = [f for f in c31.files(bad) if f.endswith((".evt", ".log.gz"))]
        if not names:
            return
        f = names[case["pick"] % len(names)]
        if f.endswith(".evt"):
            os.remove(f)
        else:
            with open(f, "r+b") as fh:
                fh.truncate(os.path.getsize(f) // 2)

        def session():
            gc.set_threshold(*case["threshold"])
            failed = 0
            for i in range(30):
                for where in [bad] + [good] * case["between"]:
                    try:
                        get(case["fmt"], where, case["num"][i % len(case["num"])], False)
                    except Exception:  # noqa: BLE001
                        failed += 1
            gc.set_threshold(700, 10, 10)
            gc.collect()
            for _ in range(200):
                left = children()
                if not left:
                    break
                time.sleep(0.05)
            return failed, len(left)

        out = c31.once(session, 75, False, lambda r: "%d failed, %d left" % r)
    if out is None:
        fail("30 reads of a %s dataset that lacks a file did not end", case["fmt"])
    require(out.endswith(" 0 left"), "after 30 reads of a %s dataset that lacks a file reader processes stay: %s", case["fmt"], out)
    note("failed:" + case["fmt"] if out == "ok %d failed, 0 left" % 30 else "not failed")


def nontrivial(case):
    return sum(o[0] == "read" for o in case["ops"]) >= 3


SUBS = [
    Sub("sessions", session(), check, 1600, nontrivial=nontrivial,
        rule="sessions of 5 to 10 steps (write or replace a dataset, read it by some spelling of its path, remove one of its files) over two datasets in up to three "
             "places with unusual names; non-trivial: at least three reads"),
    Sub("failing", failing_case(), failing_check, 32, nontrivial=lambda c: len(c["data"].get("events") or c["data"].get("logs")) > 1,
        rule="thirty reads of an incomplete OTF2 archive or Projections directory, with complete ones in between, under a drawn frequency of garbage "
             "collection, with no reader process left; non-trivial: more than one event or log"),
]
