"""P05: OpenQASM / Quil export (objects/circuit.convert_to_*, tools/internalgates)."""
import re
import math
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects.label import Label
from pygsti.objects.circuit import Circuit
from pygsti.objects import circuit as CM
from pygsti.tools import internalgates as itg
from checks.circ import layer_label, circuit

LOGIC = 'QF_FD'
MODS = ['pygsti.objects.label', 'pygsti.objects.circuit']
META = {'assumptions': ['circuits of up to 3 layers on up to 3 lines; gate names drawn from 4 names per layer; the gate-translation tables are compared with the gate unitaries numerically (exhaustively)']}

NAMES1 = ['Gxpi2', 'Gh', 'Gi', 'Iz']
NAMES2 = ['Gcnot', 'Gcphase']


def mk(cx, n, lines, pats, names1):
    C = []
    for i in range(n):
        C.append([(cx.choice('n%d%d' % (i, k), NAMES2 if ls is not None and len(ls) == 2 else (names1 if ls is not None else ['Gi', 'Gxpi2'])), ls)
                  for k, ls in enumerate(cx.choice('p%d' % i, pats))])
    return C


def build(C, lines):
    return Circuit([layer_label([(g[0], g[1], (), 0.0) for g in l]) for l in C], lines)


def parse_qasm(txt):
    """statements after the register declarations: list of layers of (op, qubits) plus measurements"""
    head, layers, cur, meas = {}, [], [], []
    for ln in txt.split('\n'):
        ln = ln.strip()
        if not ln:
            continue
        if ln.startswith('OPENQASM') or ln.startswith('include'):
            continue
        m = re.fullmatch(r'(qreg|creg) (\w+)\[(\d+)\];', ln)
        if m:
            head[m.group(1)] = int(m.group(3))
            continue
        m = re.fullmatch(r'barrier (.*);', ln)
        if m:
            layers.append((cur, tuple(int(x) for x in re.findall(r'q\[(\d+)\]', m.group(1)))))
            cur = []
            continue
        m = re.fullmatch(r'measure q\[(\d+)\] -> cr\[(\d+)\];', ln)
        if m:
            cur.append(('measure', (int(m.group(1)),), int(m.group(2))))
            continue
        m = re.fullmatch(r'([a-z0-9]+(?:\([^)]*\))?) ((?:q\[\d+\])(?:,\s*q\[\d+\])*);', ln)
        if m is None:
            raise ValueError("not an OpenQASM statement: %r" % ln)
        cur.append((m.group(1), tuple(int(x) for x in re.findall(r'q\[(\d+)\]', m.group(2))), None))
    layers.append((cur, None))
    return head, layers


@harness(params=[{'lines': l, 'meas': m} for l in ('int', 'Q', 'conv') for m in (False, True)], modules=MODS, logic=LOGIC, encodes=['Circuit.convert_to_openqasm'],
         bounds='2 layers x 3 lines, 2-4 gate names, mid-circuit measurements, three line-label conventions, with/without barriers')
def qasm(cx):
    lines = {'int': (0, 1, 2), 'Q': ('Q0', 'Q1', 'Q2'), 'conv': ('a', 'Q7', 3)}[cx.p['lines']]
    conv = {'int': None, 'Q': None, 'conv': {'a': 2, 'Q7': 0, 3: 1}}[cx.p['lines']]
    idx = {l: i for i, l in enumerate(lines)} if conv is None else conv
    a, b, c_ = lines
    C = mk(cx, 2, lines, [(), ((a,),), ((b,), (a,)), ((c_, a), (b,)), ((a, b),)] + ([(None,)] if not cx.p['meas'] and cx.p['lines'] != 'int' else []),
           ['Gxpi2', 'Iz'] if cx.p['meas'] else ['Gxpi2', 'Gi'])
    if cx.p['lines'] == 'int':
        C = C + [[('Gh', (c_,))]]
    c = build(C, lines)
    block = cx.choice('block', [True, False])
    glob = any(g[1] is None for l in C for g in l)
    if glob and len(lines) > 2:
        # "gates on more than 2 qubits not supported": use the first two lines for circuits with global gates
        C = [[g for g in l if g[1] is None or set(g[1]) <= {a, b}] for l in C]
        lines = lines[:2]
        c = build(C, lines)
    txt = c.convert_to_openqasm(qubit_conversion=conv, block_between_layers=block, num_qubits=3 if len(lines) == 2 else None)
    table = itg.get_standard_gatenames_openqasm_conversions()
    nmeas = sum(1 for l in C for g in l if g[0] == 'Iz')
    try:
        head, layers = parse_qasm(txt)
    except ValueError as e:
        cx.check(False, str(e))
        return
    cx.check(head.get('qreg') == 3 and head.get('creg') == 3 + nmeas, "register sizes")
    want, used = [], 0
    for l in C:
        ops = []
        busy = set()
        for g in l:
            if g[1] is None:
                for x in lines:
                    ops.append((table[g[0]], (idx[x],), None))
                    busy.add(x)
            elif g[0] == 'Iz':
                ops.append(('measure', (idx[g[1][0]],), used))
                used += 1
                busy |= set(g[1])
            else:
                ops.append((table[g[0]], tuple(idx[x] for x in g[1]), None))
                busy |= set(g[1])
        for x in lines:
            if x not in busy:
                ops.append(('id', (idx[x],), None))
        want.append(ops)
    final = [('measure', (idx[x],), nmeas + idx[x]) for x in lines]
    if block:
        cx.check(len(layers) == len(want) + 1, "one barrier per layer")
        for i, (got, w) in enumerate(zip(layers, want)):
            cx.check(sorted(got[0], key=str) == sorted(w, key=str), "operations of layer %d: %s, expected %s" % (i, got[0], w))
            cx.check(sorted(got[1]) == sorted(idx[x] for x in lines), "barrier lines")
        cx.check(sorted(layers[-1][0]) == sorted(final), "final measurements")
    else:
        flat = layers[0][0]
        cx.check(len(layers) == 1, "no barriers")
        w = [o for l in want for o in l] + final
        for q in range(3):
            cx.check([o for o in flat if q in o[1]] == [o for o in w if q in o[1]], "operations on qubit %d in order" % q)
        cx.check(len(flat) == len(w), "number of operations")


@harness(params=[{'lines': l} for l in ('int', 'Q', 'conv')], modules=MODS, logic=LOGIC, encodes=['Circuit.convert_to_quil', '_np_to_quil_def_str', '_num_to_rqc_str'],
         bounds='2 layers x 3 lines, readout conversion, block options, gate declarations')
def quil(cx):
    lines = {'int': (0, 1, 2), 'Q': ('Q0', 'Q1', 'Q2'), 'conv': ('a', 'Q7', 3)}[cx.p['lines']]
    conv = {'int': None, 'Q': None, 'conv': {'a': 2, 'Q7': 0, 3: 1}}[cx.p['lines']]
    idx = {l: i for i, l in enumerate(lines)} if conv is None else conv
    a, b, c_ = lines
    C = mk(cx, 2, lines, [(), ((a,),), ((b,), (a,)), ((c_, a), (b,)), (None,)], ['Gxpi2', 'Gi'])
    c = build(C, lines)
    blk, bi = cx.choice('opt', [(True, True), (False, True), (True, False)])
    ro = cx.choice('ro', [None, {x: 5 + i for i, x in enumerate(lines)}])
    decl = cx.choice('decl', [None, {'GQ': np.array([[1, 0], [0, 0.5 - 0.25j]])}])
    txt = c.convert_to_quil(qubit_conversion=conv, readout_conversion=ro, block_between_layers=blk, block_idles=bi, gate_declarations=decl)
    table = itg.get_standard_gatenames_quil_conversions()
    L = [x for x in txt.split('\n') if x]
    if decl is not None:
        cx.check(L[0] == 'DEFGATE GQ:', "gate declaration")
        rows = [[complex(v.strip().replace('i', 'j')) for v in r.split(',')] for r in L[1:3]]
        cx.check(rows == [[1, 0], [0, 0.5 - 0.25j]], "declared matrix")
        L = L[3:]
    cx.check(L[:3] == ['DECLARE ro BIT[3]', 'RESET', 'PRAGMA INITIAL_REWIRING "NAIVE"'], "header")
    ops, meas = [], []
    nb = 0
    for i, x in enumerate(L[3:]):
        if x == 'PRAGMA PRESERVE_BLOCK':
            nb += 1
        elif x == 'PRAGMA END_PRESERVE_BLOCK':
            nb -= 1
            cx.check(nb == 0, "blocks are balanced")
        elif x.startswith('MEASURE'):
            m = re.fullmatch(r'MEASURE (\d+) ro\[(\d+)\]', x)
            cx.check(m is not None, "measurement syntax")
            meas.append((int(m.group(1)), int(m.group(2))))
        else:
            t = x.split(' ')
            ops.append((t[0], tuple(int(v) for v in t[1:])))
    want = []
    for l in C:
        busy = set()
        for g in l:
            if g[1] is None:
                want += [(table[g[0]], (idx[x],)) for x in lines]
                busy |= set(lines)
            else:
                want.append((table[g[0]], tuple(idx[x] for x in g[1])))
                busy |= set(g[1])
        want += [('I', (idx[x],)) for x in lines if x not in busy]
    for q in range(3):
        cx.check([o for o in ops if q in o[1]] == [o for o in want if q in o[1]], "operations on qubit %d in order" % q)
    cx.check(len(ops) == len(want), "number of operations")
    cx.check(sorted(meas) == sorted((idx[x], idx[x] if ro is None else ro[x]) for x in lines), "measurements")


def u3(t, p, l):
    return np.array([[math.cos(t / 2), -np.exp(1j * l) * math.sin(t / 2)], [np.exp(1j * p) * math.sin(t / 2), np.exp(1j * (l + p)) * math.cos(t / 2)]])


def rot(axis, th):
    s = {'X': [[0, 1], [1, 0]], 'Y': [[0, -1j], [1j, 0]], 'Z': [[1, 0], [0, -1]]}[axis]
    return math.cos(th / 2) * np.eye(2) - 1j * math.sin(th / 2) * np.array(s)


ELEM = {'id': np.eye(2), 'I': np.eye(2), 'x': rot('X', math.pi), 'y': rot('Y', math.pi), 'z': rot('Z', math.pi), 'h': np.array([[1, 1], [1, -1]]) / math.sqrt(2),
        's': np.diag([1, 1j]), 'sdg': np.diag([1, -1j]), 't': np.diag([1, np.exp(1j * math.pi / 4)]), 'tdg': np.diag([1, np.exp(-1j * math.pi / 4)]),
        'cz': np.diag([1, 1, 1, -1]), 'cx': np.eye(4)[[0, 1, 3, 2]], 'swap': np.eye(4)[[0, 2, 1, 3]]}
ELEM.update({'X': ELEM['x'], 'Y': ELEM['y'], 'Z': ELEM['z'], 'H': ELEM['h'], 'CZ': ELEM['cz'], 'CNOT': ELEM['cx'], 'SWAP': ELEM['swap']})


def elem(txt):
    m = re.fullmatch(r'u3\((.*),(.*),(.*)\)', txt)
    if m:
        return u3(*[float(x) for x in m.groups()])
    m = re.fullmatch(r'R([XYZ])\((-?)pi/(\d+)\)', txt)
    if m:
        return rot(m.group(1), (-1 if m.group(2) else 1) * math.pi / int(m.group(3)))
    return ELEM[txt]


@harness(params=[{'which': w} for w in ('qasm', 'quil')], modules=[], encodes=['internalgates.get_standard_gatenames_openqasm_conversions', 'internalgates.get_standard_gatenames_quil_conversions',
                                                                              'internalgates.get_standard_gatename_unitaries', 'internalgates.qasm_u3'], bounds='every gate name of the tables, every input state (symbolic amplitudes)')
def tables(cx):
    table = itg.get_standard_gatenames_openqasm_conversions() if cx.p['which'] == 'qasm' else itg.get_standard_gatenames_quil_conversions()
    U = itg.get_standard_gatename_unitaries()
    name = cx.choice('name', sorted(k for k in table if table[k] != k))
    V, W = np.asarray(U[name]), elem(table[name])
    k = np.unravel_index(np.argmax(np.abs(V)), V.shape)
    ph = W[k] / V[k]
    cx.check(abs(abs(ph) - 1) < 1e-9, "modulus of a matrix element of %s" % name)
    psi = [complex(1, 0)] * 0 + cx.cplxmx('psi', V.shape[0], 1).ravel().tolist() if False else cx.reals('re', V.shape[0])
    im = cx.reals('im', V.shape[0])
    for i in range(V.shape[0]):
        a = b = c = d = 0
        for j in range(V.shape[0]):
            x, y = V[i, j] * ph, W[i, j]
            a = a + float(x.real) * psi[j] - float(x.imag) * im[j]
            b = b + float(x.real) * im[j] + float(x.imag) * psi[j]
            c = c + float(y.real) * psi[j] - float(y.imag) * im[j]
            d = d + float(y.real) * im[j] + float(y.imag) * psi[j]
        cx.check_close(a, c, "%s is exported as %s, which is a different gate" % (name, table[name]))
        cx.check_close(b, d, "%s is exported as %s, which is a different gate" % (name, table[name]))
    if cx.p['which'] == 'qasm' and table[name].startswith('u3'):
        Q = itg.qasm_u3(*[float(x) for x in re.findall(r'[\d.]+', table[name][2:])])
        cx.check(bool(np.allclose(Q, W)), "qasm_u3")
