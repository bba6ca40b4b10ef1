import contextlib
import ctypes
import hashlib
import os
import resource
import select
import signal

from hypothesis import strategies as st

from vk import hpcgen, otf2gen, projgen
from vk.core import Sub, fail, isnull, note, scratch
from vk.props import c15, c19, c21
from vk.props.c16 import plain
from vk.util import val

ASSUMPTIONS = [
    "damage that leaves everything the reader uses intact (padding, unused sections, unread files) need not be reported; the result then has to be the full trace",
    "whether a cut OTF2 file is noticed is up to the OTF2 library, which sometimes reads on in whatever its buffer held before; for those only the end of the read is checked",
    "text files without an end mark (CSV, Nsight reports, the Projections .sts) and empty files cannot be told from complete ones and are not cut",
    "a read of a dataset of a few hundred bytes that is still going on after 20 s and again after 40 s counts as one that never ends",
]
LIMITS = [20, 40]
MEM = 2 << 30  # on top of what the process already has
slow = []  # a confirmed endless read makes later ones cheaper to establish


def digest(tr):
    if tr is None:
        return "no trace"
    df = tr.events
    h = hashlib.sha1()
    for c in sorted(df.columns):
        if c != "Node":
            h.update(repr((c, [plain(v) if isinstance(v, dict) else repr(val(v)) for v in df[c].tolist()])).encode())
    if tr.definitions is not None:
        d = tr.definitions
        rows = [(k, None if isnull(i) else int(i), plain(a)) for k, i, a in zip(d["Definition Type"].tolist(), d["ID"].tolist(), d["Attributes"].tolist())]
        h.update(repr(rows).encode())
    return "%d events, %s" % (len(df), h.hexdigest())


def tied():
    """Ended together with the parent (PR_SET_PDEATHSIG): a reader that hangs outlives nobody."""
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def once(read, limit, cap, show=digest):
    """Read in a process of its own: 'ok <digest>', 'error <type>', 'killed' or None when it does not end."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.setsid()
            tied()
            os.register_at_fork(after_in_child=tied)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(limit + 20)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(nul, 1)
            os.dup2(nul, 2)
            if cap:
                with open("/proc/self/statm") as f:
                    have = int(f.read().split()[0]) * resource.getpagesize()
                resource.setrlimit(resource.RLIMIT_AS, (have + MEM, have + MEM))
            try:
                s = "ok " + show(read())
            except BaseException as e:  # noqa: BLE001
                s = "error " + type(e).__name__
            os.write(w, s.encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        ready = select.select([r], [], [], limit)[0]
        out = os.read(r, 4096).decode() if ready else None
    finally:
        with contextlib.suppress(ProcessLookupError, PermissionError):
            os.killpg(pid, signal.SIGKILL)
        with contextlib.suppress(ProcessLookupError):
            os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
    return out if out != "" else "killed"


def outcome(read, cap=False):
    for limit in [8] if slow else LIMITS:
        out = once(read, limit, cap)
        if out is not None:
            return out
    slow.append(1)
    return None


def files(path):
    out = []
    for root, _, fs in os.walk(path):
        out += [os.path.join(root, f) for f in fs]
    return sorted(out)


def run(case, read, path, cap, cuttable, sure=True):
    full = outcome(read, cap)
    if full is None or not full.startswith("ok "):
        fail("reading the complete dataset: %s" % ("it did not end" if full is None else full))
    names = files(path)
    for (which, kind, at) in case["damage"]:
        f = names[which % len(names)]
        rel = os.path.relpath(f, path)
        with open(f, "rb") as fh:
            data = fh.read()
        if kind != "gone" and (not cuttable(f) or len(data) < 2):
            kind = "gone"
        if kind == "gone":
            os.remove(f)
            what = "without %s" % rel
        else:
            keep = max(1, len(data) - 1 - at) if kind == "tail" else 1 + at * (len(data) - 1) // 1000
            with open(f, "wb") as fh:
                fh.write(data[:keep])
            what = "with %s cut after %d of %d bytes" % (rel, keep, len(data))
        out = outcome(read, cap)
        with open(f, "wb") as fh:
            fh.write(data)
        if out is None:
            fail("reading %s never ends" % what)
        if out.startswith("ok "):
            if out != full and kind != "gone" and not sure:
                note("not noticed by the OTF2 library")
            elif out != full:
                fail("reading %s gives another trace and no error (%s; complete: %s)" % (what, out[3:], full[3:]))
            note("unused part")
        elif out == "error MemoryError":
            fail("reading %s takes up all memory" % what)
        else:
            note(out)
        note("damage:" + kind)


def check_hpc(case):
    with scratch() as d:
        path = os.path.join(d, "db")
        hpcgen.write(case["data"], path)
        m = hpcgen.Model(case["data"])
        if not any(m.line_events(li) for li in range(len(case["data"]["lines"]))):
            note("skipped:no-events")
            return
        run(case, lambda: c21.read(path), path, True, lambda f: True)


def check_otf2(case):
    with scratch() as d:
        path = os.path.join(d, "a")
        otf2gen.write(case["data"], path)
        run(case, lambda: c15.read(case["data"], path, num_processes=case["num"]), path, False, lambda f: True, False)


def check_proj(case):
    with scratch() as d:
        path = os.path.join(d, "run")
        projgen.write(case["data"], path)
        run(case, lambda: c19.read(path, num_processes=case["num"]), path, False, lambda f: f.endswith(".gz"))


@st.composite
def damaged(draw, data):
    return {"data": draw(data), "num": draw(st.sampled_from([1, 1, 2, 3])),
            "damage": draw(st.lists(st.tuples(st.integers(0, 30), st.sampled_from(["cut", "cut", "cut", "tail", "gone"]), st.integers(0, 999)).map(
                lambda x: [x[0], x[1], x[2] % 12 if x[1] == "tail" else x[2]]), min_size=2, max_size=5))}


RULE = "complete datasets, each damaged two to five times by cutting a file anywhere or removing it; non-trivial: at least one file is cut"


def nontrivial(case):
    return any(k != "gone" for _, k, _ in case["damage"])


SUBS = [
    Sub("hpctoolkit", damaged(hpcgen.database(max_lines=3)), check_hpc, 500, nontrivial=nontrivial, rule=RULE),
    Sub("otf2", damaged(otf2gen.archive(sizes=(2, 6, 14))), check_otf2, 160, nontrivial=nontrivial, rule=RULE),
    Sub("projections", damaged(projgen.directory(max_pes=3, sizes=(2, 6, 15))), check_proj, 160, nontrivial=nontrivial, rule=RULE),
]
