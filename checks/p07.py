"""P07: data-set filters (construction/datasetconstruction.py, filter_circuit) and MultiDataSet (objects/multidataset.py)."""
import copy
import itertools
import pickle
import numpy as np
from symex.harness import harness, land
from pygsti.objects.circuit import Circuit
from pygsti.objects.dataset import DataSet
from pygsti.objects.multidataset import MultiDataSet
from pygsti.construction import datasetconstruction as dc
from pygsti.construction import circuitconstruction as cc
from checks.dsmodel import CIRCS, OUT, cnt, Model, total, near
from checks.circ import content

MODS = ['pygsti.objects.dataset', 'pygsti.objects.multidataset', 'pygsti.construction.datasetconstruction', 'pygsti.construction.circuitconstruction']
META = {'assumptions': ['counts are arbitrary multiples of 1/8 in [0, 1000]; outcomes, circuits and times from small concrete sets chosen by the solver',
                        'every circuit of a member data set has at least one outcome stored']}

A, B, C = [Circuit('Gx:0', line_labels=(0, 1)), Circuit('Gx:0[Gy:0Gy:1]', line_labels=(0, 1)), Circuit('{}', line_labels=(0, 1))]


def tup(o):
    return (o,) if isinstance(o, str) else o


def same(cx, ds, rows, msg, labels=None):
    """ds holds the counts of rows ({circuit: [(outcome, time, n)]}), summed per outcome and time"""
    cx.check(set(ds.keys()) == set(rows) and len(ds) == len(rows), msg + ": circuits")
    labs = set(tup(o) for es in rows.values() for o, _, _ in es)
    cx.check(labs <= set(ds.get_outcome_labels()), msg + ": outcome labels")
    if labels is not None:
        cx.check(set(ds.get_outcome_labels()) == set(map(tup, labels)), msg + ": outcome labels")
    for c, es in rows.items():
        es = [(tup(o), t, n) for o, t, n in es]
        row = ds[c]
        cnts = row.counts
        for o in ds.get_outcome_labels():
            w = total(es, lambda e: e[0] == o)
            near(cx, row[o], w, msg + ": counts")
            near(cx, cnts[o] if o in cnts else 0, w, msg + ": counts")
            near(cx, row.allcounts[o], w, msg + ": counts")
        near(cx, row.total, total(es), msg + ": totals")
        for t in sorted(set([e[1] for e in es] + [float(x) for x in row.time])):
            at = row.counts_at_time(t)
            for o in ds.get_outcome_labels():
                near(cx, at[o] if o in at else 0, total(es, lambda e: e[0] == o and e[1] == t), msg + ": counts at a time")


def member(cx, nm, reps):
    """a static data set over A, B, C and its rows"""
    deep = cx.tier != 'quick'
    ds = DataSet(outcomeLabels=cx.choice(nm + 'lbl', [[], ['1', '0']] if deep or nm == 'b' else [[]]))
    order = cx.choice(nm + 'ord', [[A, B, C], [C, A, B]] if deep or nm == 'a' else [[A, C, B]])
    val = cnt if deep or cx.p['op'] != 'agg' else (lambda cx, k: cnt(cx, k) if k[-2:] in ('01', '10') else 0 if k[0] == 'a' else 1)
    rows = {}
    shape = cx.choice(nm + 'shape', [0, 1, 2])
    for i, c in enumerate(order):
        if not reps:
            outs, ts = (['0', '1'], [0, 0]) if (shape + i) % 2 == 0 else (['1', '1', '2'], [0, 1, 1])
            ds.add_raw_series_data(c, outs, ts)
            rows[c] = [(o, t, 1) for o, t in zip(outs, ts)]
        elif shape == 2 and i == 1:
            n = [val(cx, '%sn%d%d' % (nm, i, k)) for k in range(3)]
            ds.add_raw_series_data(c, ['1', '0', '1'], [0, 2, 2], n)
            rows[c] = [('1', 0, n[0]), ('0', 2, n[1]), ('1', 2, n[2])]
        else:
            k = 2 if shape == 0 else 1 + i % 2
            outs = (['0', '1'] if not shape else ['2', '0'])[:k]
            n = [val(cx, '%sn%d%d' % (nm, i, j)) for j in range(k)]
            ds.add_count_dict(c, dict(zip(outs, n)))
            rows[c] = [(o, 0, x) for o, x in zip(outs, n)]
    ds.comment = nm
    ds.done_adding_data()
    return ds, rows


@harness(params=[{'reps': r, 'op': o} for r in ('cc', 'cr', 'rc', 'rr', 'ccc', 'rrc') for o in ('read', 'agg', 'copy', 'state', 'trunc')], modules=MODS, kinds='if',
         encodes=['MultiDataSet.' + x for x in ('add_dataset', '__setitem__', '__getitem__', 'items', 'values', 'get_datasets_aggregate', 'copy', '__getstate__', '__setstate__')],
         bounds='2-3 member data sets with 3 circuits, different stored outcomes, orders and times, with and without repetition counts; symbolic counts', limit=300)
def multi(cx):
    mds = MultiDataSet(outcomeLabels=cx.choice('pre', [None, ['1', 'z']]))
    want = {}
    held = []
    for i, r in enumerate(cx.p['reps']):
        ds, rows = member(cx, 'abc'[i], r == 'c') if i < 2 else member_fixed(cx, r == 'c')
        nm = 'abc'[i]
        if cx.p['op'] == 'trunc' and i < 2 and cx.choice('tr%d' % i, [False, True]):
            ds = ds.truncate([B, A])
            rows = {k: rows[k] for k in (A, B)}
        if i and cx.p['op'] == 'trunc' and set(rows) != set(want['a']):
            cx.check_raises(lambda: mds.add_dataset(nm, ds), "members must have the same circuits", ValueError)
            break
        held.append((ds, rows))
        if cx.p['op'] == 'read':
            mds[nm] = ds
        else:
            mds.add_dataset(nm, ds)
        want[nm] = rows
        same(cx, mds['a'], want['a'], "first member after adding more")
    ns = DataSet()
    ns.add_count_dict(A, {'0': 1})
    cx.check_raises(lambda: mds.add_dataset('ns', ns), "only static data sets can be members", ValueError)
    cx.check(list(mds.keys()) == list(want) and list(mds) == list(want) and len(mds) == len(want) and 'a' in mds and 'zz' not in mds, "member names")
    if cx.p['op'] == 'copy':
        m2 = mds.copy()
        if len(want) == len(cx.p['reps']):
            ds, rows = member_fixed(cx, True)
            m2.add_dataset('extra', ds)
            same(cx, m2['extra'], rows, "member added to the copy")
        for nm in want:
            same(cx, m2[nm], want[nm], "member of the copy")
    if cx.p['op'] == 'state':
        m2 = MultiDataSet()
        m2.__setstate__(mds.__getstate__())
        mds = m2
        cx.check(list(mds.keys()) == list(want), "member names after pickling")
    if cx.p['op'] == 'agg':
        for names in (['a'], ['a', 'b'], ['b', 'a'], list(want)):
            tot = {c: [e for nm in names for e in want[nm][c]] for c in want['a']}
            same(cx, mds.get_datasets_aggregate(*names), tot, "aggregate of members")
        cx.check_raises(lambda: mds.get_datasets_aggregate('a', 'zz'), "unknown members are refused", ValueError)
    for nm in want:
        same(cx, mds[nm], want[nm], "member")
    for nm, ds in mds.items():
        same(cx, ds, want[nm], "member from items()")
    for nm, ds in zip(want, mds.values()):
        same(cx, ds, want[nm], "member from values()")
    for ds, rows in held:
        same(cx, ds, rows, "original data set")


@harness(params=[{'n': n} for n in (2, 3)], modules=MODS, kinds='if', encodes=['MultiDataSet.add_dataset', 'MultiDataSet.__getitem__', 'MultiDataSet.get_datasets_aggregate'],
         bounds='2-3 member data sets with 4 circuits, each storing any of 1, 2 or 4 entries per circuit; symbolic counts', limit=300)
def padding(cx):
    D = Circuit('Gz:1', line_labels=(0, 1))
    mds, want = MultiDataSet(), {}
    for i in range(cx.p['n']):
        ds, rows = DataSet(), {}
        for k, c in enumerate((A, B, C, D)):
            m = cx.choice('m%d%d' % (i, k), [1, 4] if i < 2 else [2])
            n = [cnt(cx, 'x%d%d%d' % (i, k, j)) if j == 0 else 1 + j + k for j in range(m)]
            outs, ts = ['0', '1', '2', '0'][:m], [0, 0, 1, 3][:m]
            ds.add_raw_series_data(c, outs, ts, n)
            rows[c] = list(zip(outs, ts, n))
        ds.done_adding_data()
        mds['m%d' % i] = ds
        want['m%d' % i] = rows
    for nm in want:
        same(cx, mds[nm], want[nm], "member")
    same(cx, mds.get_datasets_aggregate(*want), {c: [e for nm in want for e in want[nm][c]] for c in (A, B, C, D)}, "aggregate of members")


def member_fixed(cx, reps):
    ds = DataSet()
    rows = {}
    for i, c in enumerate((B, C, A)):
        outs, ts, n = [(['1', '0', 'x'], [0, 0, 0], [3, 0, 2]), (['0'], [1], [7]), (['1', '0'], [0, 3], [1, 1])][i]
        ds.add_raw_series_data(c, outs, ts, n if reps else None)
        rows[c] = [(o, t, x if reps else 1) for o, t, x in zip(outs, ts, n)]
    ds.done_adding_data()
    return ds, rows


QC = [Circuit('[Gx:0Gy:1]Gy:1', line_labels=(0, 1, 2)), Circuit('[Gx:0Gy:2]Gy:1', line_labels=(0, 1, 2)), Circuit('Gcnot:0:1Gx:2', line_labels=(0, 1, 2)), Circuit('GiGz:1', line_labels=(0, 1, 2))]
BITS = [''.join(b) for b in itertools.product('01', repeat=3)]


def ref_filter(c, keep, new, idle):
    """gates of c on the kept lines, layer by layer (None: a gate straddles the boundary)"""
    layers = []
    for layer in c:
        out = []
        for g in layer.components:
            ss = g.sslbls
            if ss is None or all(s in keep for s in ss):
                out.append((g.name, None if ss is None else tuple((new or keep)[keep.index(s)] for s in ss), tuple(map(str, g.args)), float(g.time)))
            elif any(s in keep for s in ss):
                return None
        if out or idle is not None:
            layers.append(out if out or idle == () or idle == ((),) else [(idle, None, (), 0.0)])
    return layers


def gates(c):
    return [[(g.name, g.sslbls, tuple(map(str, g.args)), float(g.time)) for g in layer.components] for layer in c]


@harness(params=[{'keep': k, 'idle': i} for k in ((0,), (1, 0), (2,), (0, 1)) for i in ((), None, 'Gi')], modules=[], logic='QF_FD',
         encodes=['filter_circuit', 'filter_circuits', 'translate_circuit'], bounds='every 2-layer circuit of the listed layers on 3 lines, kept sets, new names, idle forms')
def fcircuit(cx):
    L = [[], [('Gx', 0)], [('Gx', 0), ('Gy', 1)], [('Gcnot', 1, 0)], [('Gcnot', 2, 0), ('Gx', 1)], [('Gx', ';', 0.5, 2), ('Gx', 1)], 'Gall', [('Gt', ';', '1.5', 1, '!2.0')]]
    ls = [cx.choice('l%d' % i, L) for i in range(2)]
    from pygsti.objects.label import Label
    mk = lambda l: (Label('Gall') if l == 'Gall' else Label([Label('Gt', (1,), 2.0, ('1.5',)) if g[0] == 'Gt' else Label(g) for g in l]))
    c = Circuit([mk(l) for l in ls], line_labels=(0, 1, 2))
    keep = cx.p['keep']
    new = cx.choice('new', [None, ['A', 'B'][:len(keep)], list(keep)[::-1]])
    before = gates(c)
    want = ref_filter(c, keep, new, cx.p['idle'])
    got = cc.filter_circuit(c, keep, new, cx.p['idle'])
    cx.check((got is None) == (want is None), "a circuit is dropped when a gate straddles the kept lines")
    if want is not None:
        cx.check(gates(got) == want, "filtered circuit has the gates on the kept lines")
        cx.check(tuple(got.line_labels) == tuple(new or keep), "lines of the filtered circuit")
    cx.check(gates(c) == before, "argument unchanged")
    if want is not None:
        lst = cc.filter_circuits([c, QC[0]], keep, new, idle=cx.p['idle']) if ref_filter(QC[0], keep, new, cx.p['idle']) is not None else [got]
        cx.check(lst[0] == got and len(lst) in (1, 2), "list of filtered circuits")
    tr = {'Gall': (Label('Gx', 0), Label('Gy', 1))}
    want = []
    for l, lay in zip(ls, c):
        want.extend([lay] if l != 'Gall' else [Label('Gx', 0), Label('Gy', 1)])
    t = cc.translate_circuit(c, {Label(k): v for k, v in tr.items()})
    cx.check(t == Circuit(want, line_labels=(0, 1, 2)) and cc.translate_circuit_list([c, c], {Label(k): v for k, v in tr.items()})[1] == t, "aliases are replaced by their layers")


@harness(params=[{'keep': k, 'zero': z} for k in ((0,), (1, 0), (2,), (0, 1)) for z in (True, False)], modules=MODS, kinds='if',
         encodes=['filter_dataset', 'create_merge_dict', 'create_qubit_merge_dict', 'merge_outcomes', 'DataSet.merge_outcomes', 'DataSet.process_circuits'],
         bounds='4 circuits on 3 qubits (two or three of which become equal after filtering, one straddles), 8 outcomes, 2 times; symbolic counts', limit=300)
def filt(cx):
    raw = cx.choice('raw', [False, True])
    ds, rows = DataSet(outcomeLabels=cx.choice('pre', [[], BITS])), {}
    if raw:
        for i, c in enumerate(QC):
            ds.add_raw_series_data(c, BITS[i:i + 3] + [BITS[i]], [0, 0, 1, 1])
            rows[c] = [(o, t, 1) for o, t in zip(BITS[i:i + 3] + [BITS[i]], [0, 0, 1, 1])]
    else:
        x = [cnt(cx, 'x%d' % i) if cx.p['zero'] or i in (0, 3) else i % 3 for i in range(8)]
        ds.add_count_dict(QC[0], dict(zip(BITS, x)))
        rows[QC[0]] = [(b, 0, x[i]) for i, b in enumerate(BITS)]
        for j in (1, 2, 3):
            n = [cnt(cx, 'y%d%d' % (j, i)) if cx.p['zero'] or (j, i) in ((2, 0), (3, 1)) else (2 * i + j) % 4 for i in range(3)]
            sel = [BITS[j], BITS[7 - j], BITS[2 * j]]
            ts = [0, 0, 0] if j != 3 else [0, 1, 1]
            ds.add_raw_series_data(QC[j], sel, ts, n)
            rows[QC[j]] = list(zip(sel, ts, n))
    if cx.choice('static', [False, True]):
        ds.done_adding_data()
    keep = cx.p['keep']
    mp = dc.create_merge_dict(keep, ds.get_outcome_labels())
    ref = {}
    for (o,) in ds.get_outcome_labels():
        ref.setdefault((''.join(o[i] for i in keep),), []).append((o,))
    cx.check({tup(k): sorted(map(tup, v)) for k, v in mp.items()} == {k: sorted(v) for k, v in ref.items()}, "merge dictionary groups outcomes by the kept positions")
    full = dc.create_qubit_merge_dict(3, keep)
    cx.check({tup(k): sorted(map(tup, v)) for k, v in full.items()} == {tuple([''.join(b)]): sorted((o,) for o in BITS if tuple(o[i] for i in keep) == b) for b in itertools.product('01', repeat=len(keep))}, "merge dictionary of all outcomes")
    red = lambda o: ''.join(o[i] for i in keep)
    merged = {c: [(red(o), t, n) for o, t, n in es] for c, es in rows.items()}
    how = cx.choice('how', ['filter', 'names', 'keepcircuits', 'merge', 'mergefull', 'func'])
    if how in ('filter', 'names', 'keepcircuits'):
        new = list('AB')[:len(keep)] if how == 'names' else None
        res = dc.filter_dataset(ds, keep, None if cx.choice('si', [False, True]) else keep, new, recordZeroCnts=cx.p['zero'], filtercircuits=how != 'keepcircuits')
        want = {}
        for c, es in merged.items():
            l = gates(c) if how == 'keepcircuits' else ref_filter(c, keep, new, ((),))
            if l is None:
                continue
            k = next((k for k in want if k == str(l)), str(l))
            want.setdefault(k, []).extend(es)
        got = {str(gates(c)): c for c in res.keys()}
        cx.check(len(got) == len(res.keys()), "no circuit twice")
        cx.check(set(got) == set(want), "circuits of the filtered data set")
        same(cx, res, {got[k]: v for k, v in want.items()}, "filtered data set", None if not cx.p['zero'] else set(red(o) for (o,) in ds.get_outcome_labels()))
        cx.check(all(tuple(c.line_labels) == (tuple(c2.line_labels) if how == 'keepcircuits' else tuple(new or keep)) for c, c2 in zip(res.keys(), ds.keys())), "lines of the circuits")
    else:
        f = {'merge': lambda: ds.merge_outcomes(mp, recordZeroCnts=cx.p['zero']), 'mergefull': lambda: ds.merge_outcomes(full, recordZeroCnts=cx.p['zero']),
             'func': lambda: dc.merge_outcomes(ds, mp if cx.choice('mp', [True, False]) else full, recordZeroCnts=cx.p['zero'])}[how]
        res = f()
        same(cx, res, merged, "merged data set")
        cx.check_raises(lambda: (dc.merge_outcomes(ds, {'q': ['000']}) if how == 'func' else ds.merge_outcomes({'q': ['000']})), "an incomplete merge is refused", ValueError)
        if cx.p['zero']:
            for c in res.keys():
                for t in res[c].get_times():
                    cx.check(len(res[c].counts_at_time(t)) == len(mp if set(res.get_outcome_labels()) != set(map(tup, full)) else full), "zero counts are recorded")
    same(cx, ds, rows, "original data set")


@harness(params=[{}], modules=MODS, kinds='if', encodes=['trim_to_constant_numtimesteps', 'generate_fake_data', 'DataSet.get_row'],
         bounds='3 circuits with 1-3 time steps each; symbolic counts', limit=300)
def trim(cx):
    ds, rows = DataSet(), {}
    for i, c in enumerate((A, B, C)):
        n = cx.choice('n%d' % i, [1, 2, 3])
        ser = [{'0': cnt(cx, 'x%d%d' % (i, k)), '1': cnt(cx, 'y%d%d' % (i, k))} for k in range(n)]
        ts = [0, 1, 5][:n] if i else [2, 3, 4][:n]
        ds.add_series_data(c, ser, ts)
        rows[c] = [(o, t, s[o]) for s, t in zip(ser, ts) for o in '01']
    if cx.choice('static', [False, True]):
        ds.done_adding_data()
    res = dc.trim_to_constant_numtimesteps(ds)
    k = min(len(rows[c]) for c in rows)
    same(cx, res, {c: rows[c][:k] for c in rows}, "trimmed data set")
    same(cx, ds, rows, "original data set")


@harness(params=[{}], modules=MODS, kinds='if', encodes=['generate_fake_data'], bounds='2 circuits with 3 outcomes, constant totals; symbolic counts', limit=300)
def fake(cx):
    ds, rows = DataSet(), {}
    for i, c in enumerate((A, B)):
        x, y = cx.int('x%d' % i, 0, 40) / 8, cx.int('y%d' % i, 0, 24) / 8
        ds.add_count_dict(c, {'0': x, '1': y, 'w': 16 - x - y})
        rows[c] = [('0', 0, x), ('1', 0, y), ('w', 0, 16 - x - y)]
    n = cx.choice('n', [None, 16, [32, 8]])
    res = dc.generate_fake_data(ds, [B, A], n, sampleError=cx.choice('err', ['none', 'clip']))
    f = {A: {None: 1, 16: 1}.get(n if type(n) is int else None, 1), B: 1} if n != [32, 8] else {B: 2, A: 0.5}
    same(cx, res, {c: [(o, t, f[c] * v) for o, t, v in rows[c]] for c in (B, A)}, "exact data from a data set")
    same(cx, ds, rows, "original data set")
