"""random tables with various kinds of index and ranges: loaded data against selection by position"""
import numpy as np

BOUND = "random tables of up to 12 rows with dates, numbers or text as index, extra columns, shuffled columns, missing values"


def run(h):
    import pandas as pd
    from harness.lib import World
    for i in h.cases("models", 12 if h.thorough else 4, 2):
        r = h.rng("models", i)
        with h.guard("loading data", case=i):
            w = World(h, r, "c17_%d" % i, dict(static=bool(i % 2), mixobs=bool(i % 3 == 0)))
            for j in range(40):
                one(h, w, r, pd)


def index(r, n, pd):
    """index, list of keys that can be used as start or end, one per row"""
    k = int(r.integers(7))
    if k == 5:
        # in no particular order
        x = ["s%02d" % q for q in r.permutation(n)]
        return pd.Index(x), x
    if k == 6:
        x = [int(q) for q in r.permutation(3 * n)[:n]]
        return pd.Index(x), x
    if k == 0:
        ix = pd.date_range("1998Q1", periods=n, freq="QE")
        return ix, [str(x.date()) if r.integers(2) else x for x in ix]
    if k == 1:
        ix = pd.date_range("1990", periods=n, freq="YE")
        return ix, [int(x.year) if r.integers(2) else str(x.year) for x in ix]
    if k == 2:
        ix = pd.period_range("2001Q1", periods=n, freq="Q")
        return ix, [str(x) for x in ix]
    if k == 3:
        return pd.Index(["t%02d" % x for x in range(n)]), ["t%02d" % x for x in range(n)]
    a = int(r.integers(0, 50))
    return pd.RangeIndex(a, a + n), [a + x for x in range(n)]


def one(h, w, r, pd):
    m = w.m
    obs = [str(o) for o in m.observables]
    n = int(r.integers(1, 13))
    cols = obs + ["extra%d" % q for q in range(int(r.integers(0, 3)))]
    cols = [cols[q] for q in r.permutation(len(cols))]
    ix, keys = index(r, n, pd)
    V = r.normal(size=(n, len(cols)))
    df = pd.DataFrame(V, index=ix, columns=cols)
    a, b = sorted(int(x) for x in r.integers(0, n, size=2))
    kw = {}
    lo, hi = 0, n - 1
    if r.integers(2):
        kw["start"], lo = keys[a], a
    if r.integers(2):
        kw["end"], hi = keys[b], b
    info = dict(columns=cols, index=[str(x) for x in ix], values=V, options={k: str(v) for k, v in kw.items()}, observables=obs)
    bad = str(r.choice(["no", "no", "no", "nan in", "nan out", "nan extra", "missing", "type"]))
    before = getattr(m, "data", None)
    dump = m.fdict.get("data")
    if bad == "missing":
        o = obs[int(r.integers(len(obs)))]
        h.raises(lambda: m.load_data(df.drop(columns=o), **kw), "data without an observable are refused", dropped=o, **info)
    elif bad == "type":
        x = [V, {c: V[:, q] for q, c in enumerate(cols)}, df[obs[0]], None, V.tolist()][int(r.integers(5))]
        h.raises(lambda: m.load_data(x, **kw), "anything but a table is refused", given=type(x).__name__, **info)
    elif bad == "nan in":
        q = df.copy()
        row, col = int(r.integers(lo, hi + 1)), cols.index(obs[int(r.integers(len(obs)))])
        where = str(r.choice(["entry", "row", "row of observables", "column", "all"]))
        if where == "entry":
            q.iloc[row, col] = np.nan
        elif where == "row":
            q.iloc[row, :] = np.nan
        elif where == "row of observables":
            q.loc[q.index[row], obs] = np.nan
        elif where == "column":
            q.iloc[:, col] = np.nan
        else:
            q.iloc[lo:hi + 1, :] = np.nan
        info["missing"] = where
        h.raises(lambda: m.load_data(q, **kw), "missing values in the selected range are refused", **info)
    else:
        if bad == "nan out" and (lo > 0 or hi < n - 1):
            rows = [q for q in range(n) if q < lo or q > hi]
            df.iloc[rows[int(r.integers(len(rows)))], :] = np.nan
        if bad == "nan extra" and len(cols) > len(obs):
            df.iloc[int(r.integers(n)), cols.index([c for c in cols if c not in obs][0])] = np.nan
        if r.integers(6) == 0:
            # not missing
            df.iloc[int(r.integers(n)), cols.index(obs[0])] = np.inf
            df.iloc[int(r.integers(n)), cols.index(obs[-1])] = -np.inf
        keep = df.copy(deep=True)
        d = m.load_data(df, **kw)
        h.check(df.equals(keep) and list(df.columns) == cols, "the given table is not modified", **info)
        want = keep.iloc[lo:hi + 1][obs]
        for x, what in ((d, "returned data"), (m.data, "data kept with the model")):
            h.check(list(map(str, x.columns)) == obs, what + ": observables in the order of the model", got=list(map(str, x.columns)), **info)
            h.check(x.shape == want.shape and np.array_equal(np.asarray(x), np.asarray(want)), what + ": rows from start to end, unchanged values", got=np.asarray(x), want=np.asarray(want), **info)
            h.check(list(x.index) == list(want.index), what + ": dates of the selected rows", got=[str(q) for q in x.index], want=[str(q) for q in want.index], **info)
        import cloudpickle
        z = cloudpickle.loads(m.fdict["data"])
        h.check(z.equals(d), "the same table is stored with the model", **info)
        # later changes of the caller's table do not reach the model
        df.iloc[:, :] = -99.
        h.check(np.array_equal(np.asarray(m.data), np.asarray(want)), "later changes of the given table do not affect the model", **info)
        return
    same = m.fdict.get("data") == dump and (before is None or m.data is before or m.data.equals(before))
    h.check(same, "refused data leave the model as it was", **info)
