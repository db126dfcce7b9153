"""P18: stabilizer frames and stabilizer measurements agree with the state vectors they stand for."""
import itertools
import types
import numpy as np
from symex.harness import harness, land, lor, lnot, ite, RANGE
from pygsti.objects import stabilizer as ST
from pygsti.objects.replib import slowreplib as R
from pygsti.tools import symplectic as sym
from checks.p17 import is_symplectic, is_valid

MODS = [('pygsti.objects.stabilizer', RANGE), 'pygsti.tools.symplectic', 'pygsti.tools.matrixmod2', 'pygsti.objects.replib.slowreplib']
COMMON = dict(modules=MODS, kinds='ifbc', logic='QF_FD', limit=300)
META = {'assumptions': ['a frame is any valid (matrix, phase) pair (independent predicate): column i stands for the generator i^p X^x Z^z; columns n.. are its partners',
                        'amplitudes of a frame are concrete numbers that depend on symbolic bits through branches',
                        'outside: more than two qubits for arbitrary frames, the compiled C++ stabilizer code']}

I2, X, Z = np.eye(2), np.array([[0, 1], [1, 0]]), np.diag([1, -1])
Y = np.array([[0, -1j], [1j, 0]])
H = (X + Z) / np.sqrt(2)
S = np.diag([1, 1j])
CN = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]])
CZ = np.diag([1, 1, 1, -1])
SW = CN @ np.kron(H, H) @ CN @ np.kron(H, H) @ CN
GATES = {'I': I2, 'X': X, 'Y': Y, 'Z': Z, 'H': H, 'S': S, 'Sdg': S.conj().T, 'HS': H @ S, 'SH': S @ H, 'CNOT': CN, 'CZ': CZ, 'SWAP': SW, 'CH': np.kron(H, S) @ CN, 'iSW': SW @ CZ @ np.kron(S, S)}


def symp_of(U):
    """(s,p) of a Clifford unitary by its definition: column j is U P_j U^dagger = i^p X^x Z^z"""
    n = int(round(np.log2(len(U))))
    def op(x, z):
        m = np.eye(1)
        for a, b in zip(x, z):
            m = np.kron(m, (X if a else I2) @ (Z if b else I2))
        return m
    s, p = np.zeros((2 * n, 2 * n), int), np.zeros(2 * n, int)
    bits = list(itertools.product((0, 1), repeat=2 * n))
    for j in range(2 * n):
        e = [int(k == j) for k in range(2 * n)]
        Q = U @ op(e[:n], e[n:]) @ U.conj().T
        for b in bits:
            t = np.trace(op(b[:n], b[n:]).conj().T @ Q) / 2**n
            if abs(t) > .5:
                s[:, j] = b
                p[j] = {(1, 0): 0, (0, 1): 1, (-1, 0): 2, (0, -1): 3}[int(round(t.real)), int(round(t.imag))]
    return s, p


SP = {k: symp_of(np.array(U, complex)) for k, U in GATES.items()}


def embed(U, qs, n):
    """U on qubits qs of n (qubit 0 is the most significant)"""
    m = len(qs)
    out = np.zeros((2**n, 2**n), complex)
    for b in itertools.product((0, 1), repeat=n):
        col = int(''.join(map(str, b)), 2)
        sub = int(''.join(str(b[q]) for q in qs), 2)
        for r in range(2**m):
            c = list(b)
            for k, q in enumerate(qs):
                c[q] = (r >> (m - 1 - k)) & 1
            out[int(''.join(map(str, c)), 2), col] += U[r, sub]
    return out


def form(a, b): 
    n = len(a) // 2
    return sum(a[k] * b[k + n] + a[k + n] * b[k] for k in range(n)) % 2


def tableaux(n):
    """every ordered generating set of a stabilizer group (up to signs), completed to a symplectic matrix"""
    vs = [v for v in itertools.product((0, 1), repeat=2 * n) if any(v)]
    out = []
    def rec(gs, span):
        if len(gs) == n:
            cols = list(gs)
            for i in range(n):   # partner of generator i: anticommutes with it only
                cols.append(next(v for v in reversed(vs) if all(form(v, c) == (1 if k == i else 0) for k, c in enumerate(cols))))
            out.append(np.array(cols).T)
            return
        for v in vs:
            if v not in span and all(form(v, g) == 0 for g in gs):
                rec(gs + [v], span | {v} | {tuple(a ^ b for a, b in zip(v, w)) for w in span})
    rec([], {(0,) * (2 * n)})
    return out


TABLEAUX = {1: tableaux(1), 2: tableaux(2)}
# three qubits: some structures
def _structures3():
    out = []
    for q in ((0, 1), (2, 0)):
        for a, b in (('CH', 'H'), ('HS', 'CNOT'), ('H', 'iSW'), ('SH', 'CZ')):
            out.append(symp_of(np.kron(GATES[a], GATES[b]) @ embed(CN, q, 3) @ np.kron(np.kron(H, S @ H), H))[0])
    return out


TABLEAUX[3] = _structures3()


def frame(cx, n, nm=''):
    """an arbitrary valid frame"""
    T = TABLEAUX[n]
    s = T[cx.choice('s' + nm, range(-(-len(T) // 9))) * 9 + cx.choice('t' + nm, range(min(9, len(T))))] if n > 1 else None
    if n == 1:
        s = cx.bvmx('s' + nm, (2, 2), 0, 1)
        cx.assume(is_symplectic(s))
        p = cx.bvmx('p' + nm, (2,), 0, 3)
        cx.assume(is_valid(s, p))
        return s, p
    # an operator X^x Z^z is Hermitian up to i^(x.z): the sign is free
    y = [sum(s[k, i] * s[k + n, i] for k in range(n)) % 2 for i in range(2 * n)]
    p = cx.array([y[i] + 2 * cx.bit('p%s%d' % (nm, i)) if i < n else y[i] for i in range(2 * n)], (2 * n,), 'i')
    return s, p


def generators(s, p, n, which=None):
    """the generators, as (x bits, z bits, phase), symbolic"""
    return [([s[k, i] for k in range(n)], [s[k + n, i] for k in range(n)], p[i]) for i in (range(n) if which is None else which)]


def stabilises(cx, psi, gens, n, msg):
    """every generator leaves psi unchanged: psi[b xor x] == i^p (-1)^(z.b) psi[b]"""
    for x, z, p in gens:
        x, z, p = [int(v) for v in x], [int(v) for v in z], int(p)
        for b in itertools.product((0, 1), repeat=n):
            t = tuple(u ^ v for u, v in zip(b, x))
            w = (1j)**(p % 4) * (-1)**sum(u * v for u, v in zip(b, z))
            cx.check(abs(psi[idx(t)] - w * psi[idx(b)]) < 1e-9, msg)


def idx(b): return int(''.join(str(int(v)) for v in b), 2)


def vector(cx, fr):
    v = fr.to_statevec()
    return [complex(x) for x in v]


@harness(params=[dict(n=1), dict(n=2)], thorough_params=[dict(n=3)], encodes=['StabilizerFrame.__init__', 'StabilizerFrame._rref', 'StabilizerFrame._colsum', 'StabilizerFrame._colswap', 'StabilizerFrame._canonical_amplitudes',
         'StabilizerFrame.extract_all_amplitudes', 'StabilizerFrame.to_statevec', 'StabilizerFrame.extract_amplitude', 'StabilizerFrame.measurement_probability', 'StabilizerFrame.copy'],
         bounds='every valid stabilizer frame of 1 qubit, every set of generators with every signs of 2 qubits, thorough: 8 structures of 3 qubits with every sign', **COMMON)
def amplitudes(cx):
    """the state vector of a frame is normalized and stabilized by every generator; single amplitudes and probabilities agree with it; copies are independent"""
    n = cx.p['n']
    s, p = frame(cx, n)
    g = generators(s, p, n)
    fr = ST.StabilizerFrame(s, [p])
    psi = vector(cx, fr)
    cx.check(abs(sum(abs(x)**2 for x in psi) - 1) < 1e-9, 'not normalized')
    stabilises(cx, psi, g, n, 'the state is not stabilized by a generator')
    for b in itertools.product((0, 1), repeat=n):
        cx.check(abs(complex(fr.extract_amplitude(np.array(b))) - psi[idx(b)]) < 1e-9, 'amplitude')
        cx.check(abs(float(fr.measurement_probability(np.array(b), check=True)) - abs(psi[idx(b)])**2) < 1e-9, 'probability')
    c = fr.copy()
    c.clifford_update(SP['HS'][0], SP['HS'][1], GATES['HS'], [n - 1])
    cx.check(all(abs(x - y) < 1e-9 for x, y in zip(vector(cx, fr), psi)), 'changing a copy changed the original')


PAIRS = [('H', 1, (0,)), ('S', 1, (0,)), ('Y', 1, (0,)), ('SH', 1, (0,)), ('HS', 1, None), ('H', 2, (0,)), ('H', 2, (1,)), ('S', 2, (1,)), ('Y', 2, (0,)), ('HS', 2, (1,)), ('SH', 2, (0,)), ('Sdg', 2, (0,)),
         ('CNOT', 2, (0, 1)), ('CNOT', 2, (1, 0)), ('CZ', 2, None), ('CH', 2, (1, 0)), ('CH', 2, (0, 1)), ('iSW', 2, None)]


QUICK2 = [('H', (0,)), ('SH', (1,)), ('CNOT', (1, 0)), ('CH', (0, 1)), ('iSW', None)]


@harness(params=[dict(g=g, n=n, q=q) for g, n, q in PAIRS if n == 1] + [dict(g=g, n=2, q=q) for g, q in QUICK2], thorough_params=[dict(g=g, n=n, q=q) for g, n, q in PAIRS if n == 2 and (g, q) not in QUICK2], encodes=['StabilizerFrame.clifford_update', 'StabilizerFrame._apply_clifford_to_frame', 'StabilizerFrame._sample_amplitude', 'symplectic.embed_clifford',
         'symplectic.check_valid_clifford', 'StabilizerFrame.push_view', 'SBOpRep_Clifford.acton', 'SBOpRep_Clifford.adjoint_acton', 'SBOpRep_Embedded.acton', 'SBStateRep.copy'],
         bounds='every valid stabilizer frame of 1 qubit and every set of generators with every sign of 2 qubits, with any global amplitude from a list; the listed Clifford gates on the listed qubits', **COMMON)
def update(cx):
    """a Clifford update multiplies the state vector by the gate's unitary, global phase included; the operator representations do the same and leave their input alone"""
    name, n, q = cx.p['g'], cx.p['n'], cx.p['q']
    s, p = frame(cx, n)
    a = [1., .6 + .8j][cx.choice('a', range(2))] if n == 1 else .6 + .8j
    U, (gs, gp) = GATES[name], SP[name]
    fr = ST.StabilizerFrame(s, [p], [a])
    psi = np.array(vector(cx, fr))
    want = embed(U, list(range(n)) if q is None else q, n) @ psi
    same = lambda f, w, m: cx.check(all(abs(x - y) < 1e-9 for x, y in zip(vector(cx, f), w)), m)
    st = R.SBStateRep(fr.s, fr.ps, fr.a)
    fr.clifford_update(gs, gp, U, q)
    same(fr, want, 'Clifford update')
    inv, pinv = sym.inverse_clifford(gs, gp)
    rep = R.SBOpRep_Clifford(gs, gp, inv, pinv, np.array(U, complex))
    if q is not None: rep = R.SBOpRep_Embedded(rep, n, list(q))
    o = rep.acton(st)
    same(o.sframe, want, 'representation')
    same(rep.adjoint_acton(o).sframe, psi, 'adjoint')
    same(st.sframe, psi, 'input state unchanged')


@harness(params=[dict(n=1), dict(n=2)], thorough_params=[dict(n=3)], encodes=['symplectic.pauli_z_measurement', 'symplectic.colsum', 'symplectic.colsum_acc', 'symplectic.stabilizer_measurement_prob'],
         bounds='every valid stabilizer state of 1 qubit, every set of generators with every signs of 2 qubits, thorough: 8 structures of 3 qubits with every sign, any outcomes and qubit subsets', **COMMON)
def measure(cx):
    """Pauli-Z measurement: Born probabilities, and post-measurement states that are valid, give the outcome with certainty and keep the commuting generators"""
    n = cx.p['n']
    s, p = frame(cx, n)
    fr = ST.StabilizerFrame(s, [p])
    psi = vector(cx, fr)
    s0, p0 = s.copy(), p.copy()
    sel = [(i,) for i in range(n)] + ([(0, 1), (1, 0)] if n == 2 else [])
    for q in sel:
        for out in itertools.product((0, 1), repeat=len(q)):
            born = sum(abs(psi[idx(b)])**2 for b in itertools.product((0, 1), repeat=n) if all(b[k] == o for k, o in zip(q, out)))
            pr, s1, p1 = sym.stabilizer_measurement_prob((s, p), out, q, return_state=True)
            cx.check(abs(float(pr) - born) < 1e-9, 'measurement probability')
            if born > 1e-6:
                post = vector(cx, ST.StabilizerFrame(s1, [p1 % 4]))
                # the projected vector, up to a global phase
                proj = [psi[idx(b)] / born**.5 if all(b[k] == o for k, o in zip(q, out)) else 0. for b in itertools.product((0, 1), repeat=n)]
                ov = sum(np.conj(x) * y for x, y in zip(proj, post))
                cx.check(abs(abs(ov) - 1) < 1e-9, 'post-measurement state')
    cx.check(land(*[x == y for x, y in zip(s.reshape(-1), s0.reshape(-1))]), 'the state was changed')
    cx.check(land(*[x == y for x, y in zip(p, p0)]), 'the phases were changed')
    full = {b: float(sym.stabilizer_measurement_prob((s, p), b)) for b in itertools.product((0, 1), repeat=n)}
    cx.check(abs(sum(full.values()) - 1) < 1e-9, 'probabilities do not sum to one')


@harness(params=[dict(n=1), dict(n=2), dict(n=3)], thorough_params=[dict(n=4)], encodes=['StabilizerFrame.from_zvals', 'symplectic.prep_stabilizer_state', 'symplectic.apply_clifford_to_stabilizer_state', 'SBEffectRep.probability', 'SBEffectRep.amplitude'],
         bounds='every computational state of up to 3 (thorough 4) qubits', **COMMON)
def computational(cx):
    n = cx.p['n']
    z = [cx.bit('z%d' % i) for i in range(n)]
    b = [1 if bool(x) else 0 for x in z]
    fr = ST.StabilizerFrame.from_zvals(n, z)
    psi = vector(cx, fr)
    cx.check(all(abs(x - (k == idx(b))) < 1e-9 for k, x in enumerate(psi)), 'state vector of a computational state')
    fr2 = ST.StabilizerFrame.from_zvals(zvals=z)
    cx.check(all(abs(x - y) < 1e-9 for x, y in zip(vector(cx, fr2), psi)), 'number of qubits inferred')
    s, p = sym.prep_stabilizer_state(n, z)
    cx.check(land(is_symplectic(s), is_valid(s, p)), 'valid state')
    for q in range(n):
        pr = sym.pauli_z_measurement(s, p, q)
        cx.check(abs(float(pr[b[q]]) - 1) < 1e-9 and abs(float(pr[1 - b[q]])) < 1e-9, 'outcome of qubit %d' % q)
    st = R.SBStateRep(fr.s, fr.ps, fr.a)
    for t in itertools.product((0, 1), repeat=n):
        e = R.SBEffectRep(np.array(t))
        cx.check(abs(float(e.probability(st)) - (list(t) == b)) < 1e-9, 'effect probability')
        cx.check(abs(complex(e.amplitude(st)) - (list(t) == b)) < 1e-9, 'effect amplitude')
    g = ['H', 'S', 'Y', 'HS'][cx.choice('g', range(4))]
    q = cx.choice('q', range(n))
    gs, gp = sym.embed_clifford(SP[g][0], SP[g][1], [q], n)
    s2, p2 = sym.apply_clifford_to_stabilizer_state(gs, gp, s, p)
    cx.check(land(is_symplectic(s2), is_valid(s2, p2)), 'valid state after a Clifford')
    w = embed(GATES[g], [q], n) @ np.array(psi)
    for k in range(n):
        p1 = sum(abs(w[idx(t)])**2 for t in itertools.product((0, 1), repeat=n) if t[k] == 1)
        cx.check(abs(float(sym.pauli_z_measurement(s2, p2, k)[1]) - p1) < 1e-9, 'probability after a Clifford')


@harness(params=[dict(ns=(1,)), dict(ns=(1, 1)), dict(ns=(2, 1))], thorough_params=[dict(ns=(1, 2)), dict(ns=(1, 1, 1))], encodes=['stabilizer.sframe_kronecker'],
         bounds='tensor products of every pair of one-qubit frames, and of two-qubit computational or Bell-like states with every one-qubit frame', **COMMON)
def kron(cx):
    fs, want = [], np.array([1.])
    for k, n in enumerate(cx.p['ns']):
        if n == 1:
            s, p = frame(cx, 1, str(k))
            f = ST.StabilizerFrame(s, [p], [[1., .6 + .8j][cx.choice('a%d' % k, range(2))]])
        else:
            z = [cx.bit('z%d%d' % (k, i)) for i in range(n)]
            f = ST.StabilizerFrame.from_zvals(n, z)
            for g, q in [(('H', [0]), ('CNOT', [0, 1])), (('S', [1]),), (('H', [1]), ('S', [1]))][cx.choice('g%d' % k, range(3))]:
                f.clifford_update(SP[g][0], SP[g][1], GATES[g], q)
        want = np.kron(want, np.array(vector(cx, f)))
        fs.append(f)
    v = vector(cx, ST.sframe_kronecker(fs))
    cx.check(len(v) == len(want) and all(abs(x - y) < 1e-9 for x, y in zip(v, want)), 'tensor product of frames')
