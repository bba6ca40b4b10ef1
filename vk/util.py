"""Comparison helpers shared by the property modules."""
from vk.core import close, fail, isnull, require


def val(x):
    """Plain Python value of a cell."""
    if x is None:
        return None
    if hasattr(x, "item"):
        try:
            x = x.item()
        except (ValueError, AttributeError):
            pass
    return None if isnull(x) else x


def snapshot(df):
    return {c: [val(v) for v in df[c].tolist()] for c in df.columns}, list(df.index)


def same_base(before, df, what):
    """The original columns, rows and row labels are as in the snapshot."""
    cols, idx = before
    require(list(df.index) == idx, "%s changed the rows of the trace: %d -> %d rows or other labels", what,
            len(idx), len(df))
    for c, want in cols.items():
        require(c in df.columns, "%s removed column %r", what, c)
        got = [val(v) for v in df[c].tolist()]
        for i, (a, b) in enumerate(zip(want, got)):
            if a is None and b is None:
                continue
            if not (a == b or (isinstance(a, dict) and a == b)):
                fail("%s changed column %r, row %d: %r -> %r" % (what, c, i, a, b))


def column(df, name):
    return [val(v) for v in df[name].tolist()]


def expect_column(df, name, want, what, exact=False):
    """want: dict row -> value; all other rows must be missing."""
    require(name in df.columns, "%s: no column %r", what, name)
    got = column(df, name)
    for i, g in enumerate(got):
        w = want.get(i)
        if w is None:
            require(g is None, "%s: row %d has %s = %r, expected none", what, i, name, g)
        else:
            ok = (g == w) if exact else close(g, w)
            require(g is not None and ok, "%s: row %d has %s = %r, expected %r", what, i, name, g, w)
