import json
import subprocess
import sys

from hypothesis import strategies as st

from vk.core import REPO, HarnessError, Sub, fail, note, require

ASSUMPTIONS = [
    "the options are log_level (the five level names, default INFO) and notebook_url (texts starting with http:// or https://, default http://localhost:8888)",
    "a refusal is any exception",
]
DEFAULT = {"log_level": "INFO", "notebook_url": "http://localhost:8888"}
LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"]
URL = st.builds(lambda s, h, p: s + h + p, st.sampled_from(["http://", "https://"]), st.sampled_from(["localhost", "127.0.0.1:80", "h\u00f4te", "x y", "[::1]"]),
                st.one_of(st.sampled_from(["", "/", ":8888", "/a?b=c#d"]), st.text(max_size=5)))
BAD_LEVEL = st.one_of(st.sampled_from(["", "info", "Debug", "INFO ", " INFO", "TRACE", "WARN", "FATAL", "NOTSET", "DEBUGINFO", "INF", "INFO\n", "\nINFO", "x\nINFO", "INFO\x00", "INFO\nDEBUG", "\u0131NFO", None, 10, 20, 0, True, 1.5,
                                       "http://localhost", ["INFO"], {"INFO": 1}, "INFO,DEBUG"]),
                      st.text(max_size=6).filter(lambda x: x not in LEVELS))
BAD_URL = st.one_of(st.sampled_from(["", "localhost:8888", "ftp://x", "http:/x", "http:", "https:/", "httpx://a", " http://x", "x http://y", "//x", "INFO", "http", "https",
                                     "ahttps://b", "localhost\nhttp://x", "\nhttp://x", "x\r\nhttps://y", "\thttps://x", "HTTP//x", "http\n://x", "https//x://", None, 8888, 0, True, 2.5, ["http://x"], {"http://x": 1}]),
                    st.text(max_size=8).filter(lambda x: not x.lower().startswith("http")))
KEY = st.sampled_from(["log_level", "notebook_url"])
BAD_KEY = st.one_of(st.sampled_from(["", None, "LOG_LEVEL", "log_level ", "loglevel", "depth", "All", "default", 0, 1, "validator", "log", "url"]),
                    st.text(max_size=6).filter(lambda x: x not in ("log_level", "notebook_url", "all")))


def op():
    good = KEY.flatmap(lambda k: st.tuples(st.just("set"), st.just(k), st.sampled_from(LEVELS) if k == "log_level" else URL))
    bad = KEY.flatmap(lambda k: st.tuples(st.just("setbad"), st.just(k), BAD_LEVEL if k == "log_level" else BAD_URL))
    return st.one_of(good, good, good, bad, bad,
                     st.tuples(st.just("reset"), KEY, st.none()), st.tuples(st.just("reset"), st.just("all"), st.none()),
                     st.tuples(st.just("get"), KEY, st.none()),
                     st.tuples(st.just("badget"), st.one_of(BAD_KEY, st.just("all")), st.none()),
                     st.tuples(st.just("badset"), st.one_of(BAD_KEY, st.just("all")), st.one_of(st.sampled_from(LEVELS), URL)),
                     st.tuples(st.just("badreset"), BAD_KEY, st.none()))


def replay(ops, fresh):
    """Runs ops against the real functions; returns an error text or None."""
    import pipit as pp

    model = dict(DEFAULT)

    def state(what):
        for k in DEFAULT:
            try:
                g = pp.get_option(k)
            except Exception as e:  # noqa: BLE001
                return "%s: reading %r raises %r" % (what, k, e)
            if not (type(g) is str and g == model[k]):
                return "%s: option %r is %r, expected %r" % (what, k, g, model[k])
        return None

    if not fresh:
        try:
            pp.reset_option("all")
        except Exception as e:  # noqa: BLE001
            return "resetting all options raises %r" % (e,)
    r = state("at the start")
    if r:
        return r
    for i, (kind, key, v) in enumerate(ops):
        what = "after step %d (%s %r %r)" % (i, kind, key, v)
        err = None
        try:
            if kind in ("set", "setbad", "badset"):
                pp.set_option(key, v)
            elif kind in ("reset", "badreset"):
                pp.reset_option(key)
            else:
                g = pp.get_option(key)
                if kind == "get" and g != model[key]:
                    return "%s: option is %r, expected %r" % (what, g, model[key])
        except Exception as e:  # noqa: BLE001
            err = e
        if kind in ("set", "reset", "get"):
            if err is not None:
                return "%s: refused with %r" % (what, err)
            if kind == "set":
                model[key] = v
            elif kind == "reset":
                for k in DEFAULT:
                    if key in (k, "all"):
                        model[k] = DEFAULT[k]
        elif err is None:
            return "%s: accepted" % what
        r = state(what)
        if r:
            return r
    return None


def check(case):
    r = replay(case["ops"], False)
    if r:
        fail(r)
    for o in case["ops"]:
        note("step:" + o[0])


def check_fresh(case):
    p = subprocess.run([sys.executable, "-c",
                        "import sys,json\nimport vk.core\nfrom vk.props import c25\nprint(json.dumps(c25.replay(json.load(sys.stdin), True)))"],
                       input=json.dumps(case["ops"]), capture_output=True, text=True, timeout=80)
    if p.returncode != 0:
        require("pipit" not in p.stderr, "a new interpreter fails: %s", p.stderr[-800:])
        raise HarnessError(p.stderr[-2000:])
    r = json.loads(p.stdout.strip().splitlines()[-1])
    if r:
        fail("in a new interpreter: " + r)


def case_of(n):
    return st.lists(op(), min_size=n // 3, max_size=n).map(lambda o: {"ops": [list(x) for x in o]})


def nontrivial(case):
    k = [o[0] for o in case["ops"]]
    return "set" in k and ("setbad" in k or "reset" in k)


SUBS = [
    Sub("history", case_of(30), check, 9000, nontrivial=nontrivial,
        rule="histories of up to 30 reads, valid and invalid settings and resets against a model; non-trivial: a valid setting and an invalid one or a reset"),
    Sub("fresh", case_of(6), check_fresh, 24, nontrivial=nontrivial, rule="short histories in a new interpreter, starting from the defaults"),
]
assert REPO
