"""P06: DataSet storage (objects/dataset.py)."""
import copy
import io
import numpy as np
from symex.harness import harness, land, lor, lnot, ite
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet
from checks.dsmodel import CIRCS, OUT, cnt, Model, total, near, check_row, check_ds, base

MODS = ['pygsti.objects.dataset']
META = {'assumptions': ['counts are arbitrary multiples of 1/8 in [0, 1000] (exact in float32; the rounding of other counts to float32 is outside the bounds); outcomes, circuits and times from small concrete sets chosen by the solver',
                        'files are written to memory; pickling and np.save are run with concrete counts']}

@harness(params=[{'coll': c, 'kind': k} for c in ('aggregate', 'overwrite', 'keepseparate') for k in ('counts', 'series', 'raw')], modules=MODS, kinds='if',
         encodes=['DataSet.add_count_dict', 'DataSet.add_raw_series_data', 'DataSet.add_series_data', 'DataSet.__setitem__', 'DataSet.set_row', 'DataSet.get_row', 'DataSet._keepseparate_update_circuit', 'DataSetRow.*'],
         bounds='3 circuits, then 2 further additions of any kind (dictionary, series, raw, item assignment, zero-count recording on/off), 3 outcomes, symbolic counts', limit=300)
def adding(cx):
    ds, m = base(cx, cx.p['kind'])
    ds.collisionAction = cx.p['coll']
    for k in range(1 if cx.tier == 'quick' else 2):
        c = cx.choice('c%d' % k, [CIRCS[0], CIRCS[3]])
        y = [cnt(cx, 'y%d%d' % (k, i)) for i in range(3)]
        op = cx.choice('op%d' % k, ['dict', 'series', 'raw', 'rawapp', 'item'])
        zeros = cx.choice('z%d' % k, [True, False]) if op != 'item' else True
        key = c
        keep = cx.p['coll'] == 'keepseparate'
        if keep and c in m.rows and op != 'item':
            i = 1
            while c + Circuit(('#%d' % i,), c.line_labels) in m.rows:
                i += 1
            key = c + Circuit(('#%d' % i,), c.line_labels)
        m.reps = True
        if op == 'dict':
            ds.add_count_dict(c, {'1': y[0], 'n': y[1], '0': y[2]}, recordZeroCnts=zeros)
            t = 0
            if cx.p['coll'] == 'aggregate' and c in m.rows:
                t = int(max([e[1] for e in m.rows[c]] or [-1])) + 1
            m.put(key, [(('0',), t, y[2]), (('1',), t, y[0]), (('n',), t, y[1])], cx.p['coll'] != 'aggregate', zeros)
        elif op == 'series':
            ds.add_series_data(c, [{'1': y[0]}, {'0': y[1], '1': y[2]}], [5, 6], recordZeroCnts=zeros)
            m.put(key, [(('1',), 5, y[0]), (('0',), 6, y[1]), (('1',), 6, y[2])], True, zeros)
        elif op == 'raw':
            ds.add_raw_series_data(c, ['1', ('0',)], [7, 7], recordZeroCnts=zeros)
            m.put(key, [(('1',), 7, 1), (('0',), 7, 1)], True, zeros)
        elif op == 'rawapp':
            ds.add_raw_series_data(c, [('p', '0'), 'n', '0'], [8, 8, 9], y, overwriteExisting=False, recordZeroCnts=zeros)
            m.put(key, [(OUT[2], 8, y[0]), (('n',), 8, y[1]), (('0',), 9, y[2])], False, zeros)
        else:
            ds[c] = {'1': y[0]}
            m.put(key, [(('1',), 0, y[0])], True)
            cx.check(ds.collisionAction == cx.p['coll'], "item assignment keeps the collision action")
    check_ds(cx, ds, m, cx.choice('full', [True, False]))
    if cx.p['coll'] == 'keepseparate':
        for c in CIRCS[:1]:
            tag = c + Circuit(('#1',), c.line_labels)
            if tag in m.rows:
                check_row(cx, ds.get_row(c, occurrence=1), m.rows[tag], m.labels, False)
        cx.check(ds.keys(stripOccurrenceTags=True) == [k[:-1] if len(k) and k[-1].name.startswith('#') else k for k in m.rows], "occurrence tags can be stripped")
    if cx.choice('freeze', [False, True]):
        ds.done_adding_data()
        cx.check_raises(lambda: ds.add_count_dict(CIRCS[4], {'0': 1}), "a finished data set cannot be changed", ValueError)
        check_ds(cx, ds, m, False)
        check_ds(cx, ds, m, False)


OPS = ['static', 'copy', 'nonstatic', 'truncate', 'slice', 'slice_agg', 'remove', 'delete', 'process', 'process_agg', 'merge', 'merge0', 'rename', 'addfrom', 'buildrep', 'state']


@harness(params=[{'kind': k, 'op': o} for k in ('counts', 'series', 'raw') for o in OPS], modules=MODS, kinds='f',
         encodes=['DataSet.' + x for x in ('done_adding_data', 'copy', 'copy_nonstatic', 'truncate', 'time_slice', 'remove', '_remove', '__delitem__', 'process_circuits', 'merge_outcomes', 'rename_outcome_labels',
                                          'add_counts_from_dataset', 'build_repetition_counts', '__getstate__', '__setstate__')],
         bounds='3 circuits; the named operation followed by one more out of freeze / copy / truncate / append / remove / rename; static and non-static', limit=300)
def operations(cx):
    ds, m = base(cx, cx.p['kind'])
    before = cx.choice('before', ['-', 'static', 'trunc']) if cx.p['op'] not in ('remove', 'delete', 'process', 'process_agg', 'addfrom', 'buildrep') else cx.choice('before', ['-', 'remove'])
    if before in ('static', 'trunc'):
        ds.done_adding_data()
    if before == 'trunc':
        ds = ds.truncate([CIRCS[2], CIRCS[1]])
        m.rows = {CIRCS[2]: m.rows[CIRCS[2]], CIRCS[1]: m.rows[CIRCS[1]]}
    if before == 'remove':
        ds.remove([CIRCS[1]])
        del m.rows[CIRCS[1]]
    orig, om = ds, m
    m = m.copy()
    ds = apply(cx, cx.p['op'], ds, m, 'o')
    check_ds(cx, ds, m)
    nxt = cx.choice('then', ['-', 'freeze', 'nonstatic', 'truncate', 'rename', 'append'])
    if nxt == 'append':
        y = cnt(cx, 'w')
        ds = ds.copy_nonstatic()
        ds.add_count_dict(CIRCS[3], {'zz': y, '1': 2})
        t = int(max([e[1] for e in m.rows.get(CIRCS[3], [])] or [-1])) + 1
        m.put(CIRCS[3], [(('1',), t, 2), (('zz',), t, y)], False)
    elif nxt == 'freeze':
        ds.done_adding_data()
    elif nxt != '-':
        ds = apply(cx, nxt, ds, m, 't')
    if nxt != '-':
        check_ds(cx, ds, m)
    if cx.p['op'] in ('copy', 'nonstatic', 'truncate', 'slice', 'slice_agg', 'merge', 'merge0') and nxt != 'rename':
        check_ds(cx, orig, om)


def apply(cx, op, ds, m, nm):
    if op == 'static':
        ds.done_adding_data()
        return ds
    if op == 'copy':
        return ds.copy()
    if op == 'nonstatic':
        r = ds.copy_nonstatic()
        cx.check(not r.bStatic, "copy_nonstatic is not static")
        return r
    if op == 'state':
        r = DataSet()
        r.__setstate__(ds.__getstate__())
        return r
    if op == 'truncate':
        keep = cx.choice(nm + 'keep', [[CIRCS[2], CIRCS[0], CIRCS[2]], [CIRCS[1], CIRCS[3]], [CIRCS[0].tup, CIRCS[2]], []])
        miss = 'ignore'
        if CIRCS[3] in keep and CIRCS[3] not in m.rows:
            cx.check_raises(lambda: ds.truncate(keep), "a missing circuit is reported", KeyError)
        elif all((k if isinstance(k, Circuit) else Circuit(k)) in m.rows for k in keep):
            miss = cx.choice(nm + 'miss', ['raise', 'ignore', 'warn'])
        r = ds.truncate(keep, missingAction=miss)
        rows = {}
        for k in keep:
            k = k if isinstance(k, Circuit) else Circuit(k)
            if k in m.rows:
                rows[k] = m.rows[k]
        m.rows = rows
        return r
    if op in ('slice', 'slice_agg'):
        lo, hi = cx.choice(nm + 'rng', [(0, 1), (0, 2), (1, 4), (2, 2)])
        r = ds.time_slice(lo, hi, 10 if op == 'slice_agg' else None)
        for k in m.rows:
            es = [e for e in m.rows[k] if lo <= e[1] < hi]
            if op == 'slice_agg':
                labs = [o for o in ds.get_outcome_labels()]
                es = [(o, 10, total(es, lambda e: e[0] == o)) for o in labs]
                es = [e for e in es if e[2] > 0]
            m.rows[k] = es
        return r
    if op == 'remove':
        rem = cx.choice(nm + 'rem', [[CIRCS[0]], [CIRCS[2], CIRCS[0]], [CIRCS[0], CIRCS[0]], [CIRCS[2], CIRCS[3]], [c for c in CIRCS[:3] if c in m.rows]])
        miss = 'ignore' if CIRCS[3] in rem else 'raise'
        if miss == 'ignore':
            cx.check_raises(lambda: ds.remove(rem), "a missing circuit is reported", KeyError)
        ds.remove(rem, miss)
        for k in rem:
            m.rows.pop(k, None)
        return ds
    if op == 'delete':
        k = cx.choice(nm + 'k', list(m.rows))
        del ds[k]
        del m.rows[k]
        return ds
    if op in ('process', 'process_agg'):
        agg = op == 'process_agg'
        target = cx.choice(nm + 'to', [None, CIRCS[2], CIRCS[4]])
        src = cx.choice(nm + 'from', [CIRCS[0], CIRCS[2]])
        if target is not None and target != src and target in m.rows and not agg:
            return ds  # two circuits become the same one: the result is documented only with aggregation
        ds.process_circuits(lambda c: target if c == src else c, aggregate=agg)
        rows = {}
        for k in m.rows:
            n = target if k == src else k
            if n is None:
                continue
            rows[n] = rows[n] + m.rows[k] if n in rows else m.rows[k]
        m.rows = rows
        return ds
    if op in ('merge', 'merge0'):
        labs = list(ds.get_outcome_labels())
        mp = {'A': [o for o in labs if o != ('1',)], ('q', 'B'): [('1',)], 'C': []}
        if cx.choice(nm + 'one', [False, True]):
            mp = {'A': [o if len(o) > 1 else o[0] for o in labs]}
        rec = op == 'merge0'
        r = ds.merge_outcomes(mp, recordZeroCnts=rec)
        of = {(x,) if isinstance(x, str) else x: ((a,) if isinstance(a, str) else a) for a, xs in mp.items() for x in xs}
        new = sorted([(a,) if isinstance(a, str) else a for a in mp])
        for k in m.rows:
            es, runs = [], []
            for e in m.rows[k]:
                if not runs or runs[-1][0] != e[1]:
                    runs.append((e[1], []))
                runs[-1][1].append((of[e[0]], e[2]))
            for t, xs in runs:
                seen = []
                for o, _ in xs:
                    if o not in seen:
                        seen.append(o)
                for o in (new if rec else seen):
                    s = 0
                    for o2, n in xs:
                        if o2 == o:
                            s = s + n
                    es.append((o, t, s))
            m.rows[k] = es
        m.labels = new
        return r
    if op == 'rename':
        if [o for o in ds.get_outcome_labels() if o in (('1',), ('p', '0'))] == []:
            return ds
        mp = {'1': 'one', ('p', '0'): ('q', 'x')}
        if ('0',) in m.labels and cx.choice(nm + 'swap', [False, True]):
            mp = {'1': '0', '0': '1'}
        ds.rename_outcome_labels(mp)
        f = {(a,) if isinstance(a, str) else a: (b,) if isinstance(b, str) else b for a, b in mp.items()}
        m.labels = [f.get(o, o) for o in m.labels]
        for k in m.rows:
            m.rows[k] = [(f.get(o, o), t, n) for o, t, n in m.rows[k]]
        return ds
    if op == 'addfrom':
        o = DataSet()
        y = [cnt(cx, nm + 'y%d' % i) for i in range(2)]
        raw = cx.choice(nm + 'raw', [False, True])
        ents = [(('1',), 4, y[0]), (('b',), 4, y[1])] if not raw else [(('1',), 4, 1), (('b',), 4, 1)]
        for k in (CIRCS[3], CIRCS[0]):
            o.add_raw_series_data(k, ['1', 'b'], [4, 4], None if raw else y)
        if cx.choice(nm + 'st', [False, True]):
            o.done_adding_data()
        (ds.add_counts_from_dataset if cx.choice(nm + 'fn', [True, False]) else ds.add_series_from_dataset)(o)
        for k in (CIRCS[3], CIRCS[0]):
            m.put(k, ents, False)
        return ds
    if op == 'buildrep':
        ds.build_repetition_counts()
        cx.check(ds.repData is not None, "repetition counts are stored")
        return ds
    raise ValueError(op)


@harness(params=[{'kind': k, 'static': s, 'via': v} for k in ('counts', 'series', 'raw') for s in (False, True) for v in ('save', 'pickle')], modules=[], logic='QF_FD',
         encodes=['DataSet.save', 'DataSet.load', 'DataSet.__getstate__', 'DataSet.__setstate__'], bounds='counts chosen from {0, 1, 3.5, 1000}, static/non-static, written to and read from memory')
def files(cx):
    class C(object):
        symbolic = False
        p, tier = cx.p, cx.tier
        check, check_close, choice, cover = cx.check, cx.check_close, cx.choice, cx.cover

        @staticmethod
        def int(nm, lo, hi):
            return cx.choice(nm, [28, 0, 8000]) if nm in ('x1', 'x3') else {'x0': 56, 'x2': 8, 'x4': 96, 'x5': 0}[nm]
    ds, m = base(C, cx.p['kind'])
    ds.comment = 'hello'
    ds.add_auxiliary_info(CIRCS[0], {'k': 5})
    if cx.p['static']:
        ds.done_adding_data()
    if cx.p['via'] == 'save':
        f = io.BytesIO()
        ds.save(f)
        f.seek(0)
        r = DataSet(fileToLoadFrom=f)
    else:
        import pickle
        r = pickle.loads(pickle.dumps(ds))
    check_ds(C, r, m, True)
    cx.check(r.comment == 'hello' and r.auxInfo[CIRCS[0]] == {'k': 5} and r.bStatic == cx.p['static'] and r.collisionAction == ds.collisionAction, "other contents of the file")
    cx.check(r.get_outcome_labels() == ds.get_outcome_labels(), "outcome labels of the file")
    if not cx.p['static']:
        r.add_count_dict(CIRCS[4], {'new': 4})
        m.put(CIRCS[4], [(('new',), 0, 4)], True)
        check_ds(C, r, m, False)


@harness(params=[{'kind': k} for k in ('counts', 'series', 'raw')], modules=MODS, kinds='f', encodes=['DataSetRow.__setitem__', 'DataSetRow.scale', 'DataSetRow.fraction', 'DataSetRow.get_expanded_*', 'DataSet.get_degrees_of_freedom', 'DataSet.has_constant_totalcounts'],
         bounds='assignment to one entry of a row (by index or outcome), scaling, derived quantities')
def rows(cx):
    ds, m = base(cx, cx.p['kind'])
    op = cx.choice('op', ['index', 'outcome', 'scale', 'dof', 'fraction', 'expand', 'const'])
    c = CIRCS[0]
    y = cnt(cx, 'y')
    if op == 'index':
        i = cx.choice('i', [0, 1])
        if cx.p['kind'] == 'raw':
            ds[c][i] = ('1', 9)
            y = 1
        else:
            ds[c][i] = ('1', 9, y)
        m.rows[c][i] = (('1',), 9, y)
        check_ds(cx, ds, m)
    elif op == 'outcome' and cx.p['kind'] == 'counts':
        o = cx.choice('o', ['0', ('1',)])
        ds[c][o] = y
        m.rows[c] = [(e[0], e[1], y if e[0] == ((o,) if isinstance(o, str) else o) else e[2]) for e in m.rows[c]]
        check_ds(cx, ds, m)
    elif op == 'scale' and cx.p['kind'] != 'raw':
        ds[c].scale(2.5)
        m.rows[c] = [(e[0], e[1], 2.5 * e[2]) for e in m.rows[c]]
        check_ds(cx, ds, m)
    elif op == 'dof':
        for method in ('present_outcomes-1', 'all_outcomes-1'):
            for agg in (True, False):
                n = 0
                for k in m.rows:
                    runs = []
                    for e in m.rows[k]:
                        if not runs or (not agg and runs[-1][0] != e[1]):
                            runs.append((e[1], set()))
                        runs[-1][1].add(e[0])
                    for r in runs:
                        n += (len(m.labels) if method == 'all_outcomes-1' else len(r[1])) - 1
                cx.check(ds.get_degrees_of_freedom(None, method, agg) == n, "degrees of freedom")
        cx.check(ds.get_degrees_of_freedom([c]) == len(set(e[0] for e in m.rows[c])) - 1, "degrees of freedom of one circuit")
    elif op == 'fraction':
        t = total(m.rows[c])
        cx.assume(t > 1)
        for o in m.labels:
            w = total(m.rows[c], lambda e: e[0] == o)
            near(cx, ds[c].fraction(o) * t, w, "fraction")
            f = ds[c].fractions
            near(cx, (f[o] if o in f else 0) * t, w, "fractions")
    elif op == 'expand':
        r = DataSet()
        k = [cx.choice('k%d' % i, [0, 1, 3]) for i in range(3)]
        r.add_raw_series_data(c, ['0', '1', '0'], [0, 1, 1], k)
        want = [('0', 0)] * k[0] + [('1', 1)] * k[1] + [('0', 1)] * k[2]
        cx.check([o[0] for o in r[c].get_expanded_ol()] == [w[0] for w in want], "expanded outcomes")
        cx.check([r.ol[int(i)][0] for i in r[c].get_expanded_oli()] == [w[0] for w in want], "expanded outcome indices")
        cx.check([float(t) for t in r[c].get_expanded_times()] == [float(w[1]) for w in want], "expanded times")
    else:
        tots = [total(m.rows[k]) for k in m.rows]
        got = ds.has_constant_totalcounts()
        cx.check(bool(got) == bool(land(*[t == tots[0] for t in tots])), "constant totals")
        cx.check(ds.has_trivial_timedependence() == all(e[1] == 0 for es in m.rows.values() for e in es), "trivial time dependence")
