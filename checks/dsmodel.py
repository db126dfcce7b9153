"""Expected content of data sets, and comparison with the real ones (used by P06, P07, P08)."""
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet

CIRCS = [Circuit('Gx:Q0Gy:Q0'), Circuit('{}@(Q0)'), Circuit('[Gx:Q0Gi:Q1]'), Circuit('Gx'), Circuit('Gx^3')]
OUT = [('0',), ('1',), ('p', '0')]


def cnt(cx, nm):
    return cx.int(nm, 0, 8000) / 8


class Model(object):
    """expected content: circuit -> list of (outcome, time, count)"""

    def __init__(self):
        self.rows, self.labels, self.reps = {}, [], False

    def copy(self):
        m = Model()
        m.rows, m.labels, m.reps = {k: list(v) for k, v in self.rows.items()}, list(self.labels), self.reps
        return m

    def put(self, c, entries, overwrite, zeros=True, cx=None):
        for o, _, _ in entries:
            if o not in self.labels:
                self.labels.append(o)
        if not zeros:
            entries = [e for e in entries if e[2] != 0]
        self.rows[c] = (list(entries) if overwrite or c not in self.rows else self.rows[c] + list(entries))


def total(entries, sel=lambda e: True):
    t = 0
    for e in entries:
        if sel(e):
            t = t + e[2]
    return t


def near(cx, a, b, msg):
    cx.check_close(a, b, msg, 1e-4 if not cx.symbolic else 1e-7)


def check_row(cx, row, entries, labels, full=True):
    c = row.counts
    present = [o for o in labels if any(e[0] == o for e in entries)]
    for o in labels:
        want = total(entries, lambda e: e[0] == o)
        near(cx, row[o], want, "row[outcome]")
        if len(o) == 1:
            near(cx, row[o[0]], want, "row[outcome string]")
        if o in c:
            near(cx, c[o], want, "row.counts")
        else:
            near(cx, want, 0, "outcome with counts is missing from row.counts")
        near(cx, row.allcounts[o], want, "row.allcounts")
    cx.check(set(c.keys()) <= set(present), "row.counts has only outcomes of the row")
    near(cx, row.total, total(entries), "row.total")
    cx.check(len(row) == len(entries), "row length")
    got = list(row)
    cx.check([g[0] for g in got] == [e[0] for e in entries], "outcomes in order")
    cx.check(row.outcomes == [e[0] for e in entries], "row.outcomes")
    for i, (g, e) in enumerate(zip(got, entries)):
        near(cx, g[1], e[1], "times in order")
        near(cx, g[2], e[2], "repetitions in order")
        near(cx, row[i][2], e[2], "row[index]")
        cx.check(row[i][0] == e[0], "row[index]")
    if not full or not entries:
        return
    for t in sorted(set(e[1] for e in entries)):
        at = row.counts_at_time(t)
        at2 = row[float(t)]
        for o in labels:
            want = total(entries, lambda e: e[0] == o and e[1] == t)
            near(cx, at[o] if o in at else 0, want, "counts at a time")
            near(cx, at2[o] if o in at2 else 0, want, "row[time]")
    runs = []
    for e in entries:
        if not runs or runs[-1][0] != e[1]:
            runs.append((e[1], []))
        runs[-1][1].append(e)
    cx.check([float(x) for x in row.get_times()] == [r[0] for r in runs] and row.get_number_of_times() == len(runs), "times of the row")
    ts, series = row.get_timeseries_for_outcomes()
    cx.check([float(x) for x in ts] == [r[0] for r in runs], "times of the outcome series")
    for o in labels:
        for k, r in enumerate(runs):
            near(cx, series[o][k], total(r[1], lambda e: e[0] == o), "series of an outcome")
    ts, ds = row.get_timeseries()
    for k, r in enumerate(runs):
        for o in set(e[0] for e in r[1]):
            near(cx, ds[k][o], total(r[1], lambda e: e[0] == o), "counts of a time step")
        cx.check(set(ds[k]) == set(e[0] for e in r[1]), "outcomes of a time step")
    if all(x[0] != y[0] for x, y in zip(runs, runs[1:])):
        ts, rp = row.get_reps_timeseries()
        if row.reps is not None:
            cx.check(len(rp) == len(runs), "steps")
            for k, r in enumerate(runs):
                near(cx, rp[k], total(r[1]), "total counts of a time step")
    if [r[0] for r in runs] == sorted(set(r[0] for r in runs)):
        for o in labels + ['all']:
            sel = [(r[0], total(r[1], lambda e: o == 'all' or e[0] == o), any(o == 'all' or e[0] == o for e in r[1])) for r in runs]
            t2, c2 = row.timeseries(o)
            sel2 = [x for x in sel if x[2]]
            cx.check([float(x) for x in t2] == [x[0] for x in sel2], "times of timeseries()")
            for x, y in zip(c2, sel2):
                near(cx, x, y[1], "counts of timeseries()")
            stamps = sorted(set([r[0] for r in runs] + [0.5]))
            t3, c3 = row.timeseries(o, stamps)
            cx.check([float(x) for x in t3] == stamps, "times of timeseries(timestamps)")
            for t, x in zip(stamps, c3):
                near(cx, x, total(entries, lambda e: (o == 'all' or e[0] == o) and e[1] == t), "counts of timeseries(timestamps)")


def check_ds(cx, ds, m, full=False, order=True):
    cx.check((list(ds.keys()) == list(m.rows)) if order else (set(ds.keys()) == set(m.rows)), "circuits of the data set")
    cx.check(len(ds) == len(m.rows), "number of circuits")
    cx.check(set(ds.get_outcome_labels()) >= set(e[0] for es in m.rows.values() for e in es), "outcome labels")
    for c in m.rows:
        cx.check(c in ds, "membership")
        check_row(cx, ds[c], m.rows[c], [o for o in m.labels if o in ds.get_outcome_labels()], full)
    for (k, row), row2, k2 in zip(ds.items(), ds.values(), ds):
        cx.check(k == k2, "iteration order")
        near(cx, row.total, total(m.rows[k]), "rows by iteration")
        near(cx, row2.total, total(m.rows[k]), "rows by iteration")


def base(cx, kind, zero=False):
    """data set with a few rows: counts / series / raw (no repetition counts), and its expected content"""
    ds, m = DataSet(outcomeLabels=cx.choice('pre', [[], ['1', '0']]) if kind != 'raw' else []), Model()
    m.labels = list(ds.get_outcome_labels())
    a, b, c = CIRCS[:3]
    if kind == 'counts':
        x = [cnt(cx, 'x%d' % i) for i in range(5)]
        ds.add_count_dict(a, {'0': x[0], '1': x[1]})
        m.put(a, [(OUT[0], 0, x[0]), (OUT[1], 0, x[1])], True)
        ds.add_count_dict(b, {('p', '0'): x[2]})
        m.put(b, [(OUT[2], 0, x[2])], True)
        ds[c] = {'1': x[3], '0': x[4]}
        m.put(c, [(OUT[0], 0, x[4]), (OUT[1], 0, x[3])], True)
    elif kind == 'series':
        x = [cnt(cx, 'x%d' % i) for i in range(6)]
        ds.add_series_data(a, [{'0': x[0], '1': x[1]}, {'1': x[2]}], [0, 2])
        m.put(a, [(OUT[0], 0, x[0]), (OUT[1], 0, x[1]), (OUT[1], 2, x[2])], True)
        ds.add_raw_series_data(b, ['1', ('p', '0'), '1'], [0, 1, 1], [x[3], x[4], x[5]])
        m.put(b, [(OUT[1], 0, x[3]), (OUT[2], 1, x[4]), (OUT[1], 1, x[5])], True)
        ds.add_raw_series_data(c, ['0'], [3.0], None)
        m.put(c, [(OUT[0], 3, 1)], True)
    else:
        ds.add_raw_series_data(a, ['0', '1', '0'], [0, 0, 2])
        m.put(a, [(OUT[0], 0, 1), (OUT[1], 0, 1), (OUT[0], 2, 1)], True)
        ds[b] = (['1'], [1])
        m.put(b, [(OUT[1], 1, 1)], True)
        ds.add_raw_series_data(c, ['1', '1'], [0, 0])
        m.put(c, [(OUT[1], 0, 1), (OUT[1], 0, 1)], True)
    return ds, m
