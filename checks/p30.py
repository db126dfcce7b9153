"""P30: idle tomography - Pauli algebra, Jacobian entries, fiducial circuits, and recovery of intrinsic rates."""
import itertools
import numpy as np
from symex.harness import harness, land, lor
from pygsti.extras.idletomography import pauliobjs as PO, idttools as IT, idtcore as IC
from pygsti.objects import Circuit

MODS = ['pygsti.extras.idletomography.pauliobjs', 'pygsti.extras.idletomography.idttools', 'pygsti.extras.idletomography.idtcore']
COMMON = dict(modules=MODS, kinds='', limit=300)
META = {'assumptions': ['Pauli strings, signs, outcomes are solver-chosen from all values; reference values are matrices of at most 3 qubits built in the check',
                        'conventions (those of the Lindblad error generators of the package): H error P: -i/2 [P,rho]; S error: P rho P - rho; A error: rho -> P on the support of P, identity elsewhere',
                        'fits are exact interpolations (two lengths for order 1): weights do not matter there; statistics of the fits are outside']}
P1 = {'I': np.eye(2), 'X': np.array([[0, 1], [1, 0]]), 'Y': np.array([[0, -1j], [1j, 0]]), 'Z': np.diag([1, -1])}


def mx(s):
    r = np.eye(1)
    for x in s:
        r = np.kron(r, P1[x])
    return r


def state(st):
    r = np.eye(1)
    for s, x in zip(st.signs, st.rep):
        r = np.kron(r, (np.eye(2) + s * P1[x]) / 2)
    return r


def effect(st, out):
    """effect of an outcome string of the measurement along the signed bases"""
    r = np.eye(1)
    for s, x, b in zip(st.signs, st.rep, out):
        r = np.kron(r, (np.eye(2) + s * (1 if b == '0' else -1) * P1[x]) / 2)
    return r


def aff(err, rho, n):
    """trace out the support of err and put err there"""
    r = rho
    for q, x in enumerate(err):
        if x != 'I':
            t = r.reshape((2,) * (2 * n))
            tr = np.trace(t, axis1=q, axis2=n + q)               # n-1 qubits
            t = np.multiply.outer(P1[x], tr)                      # (q, q', rest..)
            t = np.moveaxis(t, [0, 1], [q, n + q])
            r = t.reshape(2**n, 2**n)
    return r


def deriv(typ, err, rho, n):
    p = mx(err)
    if typ == 'H':
        return -.5j * (p @ rho - rho @ p)
    if typ == 'S':
        return p @ rho @ p - rho
    return aff(err, rho, n)


def pstr(cx, nm, n, letters='IXYZ'): return ''.join(cx.choice('%s%d' % (nm, i), list(letters)) for i in range(n))
def signs(cx, nm, n): return tuple(cx.choice('%s%d' % (nm, i), [1, -1]) for i in range(n))


@harness(params=[dict(n=n, a=a) for n, a in [(1, s) for s in 'IXYZ'] + [(2, s) for s in 'IXYZ']], thorough_params=[dict(n=3, a=a + b) for a in 'IXYZ' for b in 'IXYZ'],
         encodes=['NQPauliOp.commuteswith', 'NQPauliOp.icommutatorOver2', 'NQPauliOp.dot', 'NQPauliOp.subpauli', 'NQPauliOp.statedot', '_commute_parity'],
         bounds='every pair of signed Pauli strings on 1 and 2 qubits (thorough 3), every Pauli state', logic='QF_FD', **COMMON)
def algebra(cx):
    """products, commutators and expectation values of signed Pauli strings are those of the matrices"""
    n = cx.p['n']
    a = cx.p['a'] + pstr(cx, 'a', n - len(cx.p['a']))
    b = pstr(cx, 'b', n)
    sa, sb = cx.choice('sa', [1, -1]), cx.choice('sb', [1, -1])
    A, B = PO.NQPauliOp(a, sa), PO.NQPauliOp(b, sb)
    MA, MB = sa * mx(a), sb * mx(b)
    com = MA @ MB - MB @ MA
    cx.check(bool(A.commuteswith(B)) == (not np.any(com)), 'commutation')
    c = A.icommutatorOver2(B)
    cx.check((c is None) == (not np.any(com)), 'vanishing of the commutator')
    if c is not None:
        cx.check(np.allclose(c.sign * mx(c.rep), .5j * com), 'i/2 times the commutator')
    cx.check(A.dot(B) == np.trace(MA @ MB).real / 2**n, 'overlap of Pauli strings')
    cx.check((A == B) == bool(np.array_equal(MA, MB)) and (A == PO.NQPauliOp(a, sa)) and hash(A) == hash(PO.NQPauliOp(a, sa)), 'equality')
    if b.count('I') == 0:
        st = PO.NQPauliState(b, (sb,) + (1,) * (n - 1))
        cx.check(A.statedot(st) == np.trace(MA @ state(st)).real, 'expectation value of a Pauli string')
        cs = A.icommutatorOver2(st)
        cx.check((cs is None and c is None) or cs == c, 'commutator with the Pauli string of a state')
        s2 = cx.choice('s2', [1, -1])
        o = PO.NQPauliState(a, (s2,) * n) if 'I' not in a else None
        cx.check(o is None or (o == st) == (a == b and s2 == sb and (n == 1 or s2 == 1)), 'equality of states')
    k = cx.choice('k', range(n))
    cx.check(A.subpauli([k]) == PO.NQPauliOp.Weight1Pauli(n, k, 'XYZ'.index(a[k])) if a[k] != 'I' else A.subpauli([k]).rep == 'I' * n, 'restriction to one qubit')
    cx.check(A.subpauli(range(n)).rep == a, 'restriction to all qubits')


@harness(params=[dict(n=1, a='')] + [dict(n=2, a=s) for s in 'XYZ'], thorough_params=[dict(n=3, a=a + b) for a in 'XYZ' for b in 'XYZ'],
         encodes=['hamiltonian_jac_element', 'affine_jac_obs_element', 'NQPauliOp.statedot', 'NQPauliOp.icommutatorOver2'],
         bounds='every Pauli preparation, error and observable on 1 and 2 qubits (thorough 3)', logic='QF_FD', **COMMON)
def observable_entries(cx):
    """derivatives of expectation values"""
    n = cx.p['n']
    prep = PO.NQPauliState(cx.p['a'] + pstr(cx, 'p', n - len(cx.p['a']), 'XYZ'), signs(cx, 's', n))
    rho = state(prep)
    err, obs = pstr(cx, 'e', n), pstr(cx, 'o', n)
    if set(err) == {'I'} or set(obs) == {'I'}:
        return
    E, O = PO.NQPauliOp(err), PO.NQPauliOp(obs)
    cx.check(abs(IC.hamiltonian_jac_element(prep, E, O) - np.trace(mx(obs) @ deriv('H', err, rho, n)).real) < 1e-9, 'Hamiltonian entry')
    cx.check(abs(IC.affine_jac_obs_element(prep, E, O) - np.trace(mx(obs) @ deriv('A', err, rho, n)).real) < 1e-9, 'affine entry of an observable')


@harness(params=[dict(n=1, a='')] + [dict(n=2, a=s) for s in 'XYZ'], thorough_params=[dict(n=3, a=a + b) for a in 'XYZ' for b in 'XYZ'],
         encodes=['stochastic_outcome', 'stochastic_jac_element', 'affine_jac_element', 'alloutcomes', 'NQOutcome.flip'],
         bounds='every Pauli preparation and same-basis measurement with every signs, every error and outcome on 1 and 2 qubits (thorough 3)', logic='QF_FD', **COMMON)
def outcome_entries(cx):
    """derivatives of the probabilities of the outcomes that do not occur without errors"""
    n = cx.p['n']
    rep = cx.p['a'] + pstr(cx, 'p', n - len(cx.p['a']), 'XYZ')
    prep, meas = PO.NQPauliState(rep, signs(cx, 's', n)), PO.NQPauliState(rep, signs(cx, 'm', n))
    rho = state(prep)
    err = pstr(cx, 'e', n)
    E = PO.NQPauliOp(err)
    rho2 = mx(err) @ rho @ mx(err)
    outs = [''.join(o) for o in itertools.product('01', repeat=n)]
    after = [o for o in outs if abs(np.trace(effect(meas, o) @ rho2) - 1) < 1e-9]
    cx.check([IC.stochastic_outcome(prep, E, meas).rep] == after, 'outcome after a Pauli error')
    expected = [o for o in outs if abs(np.trace(effect(meas, o) @ rho) - 1) < 1e-9][0]
    alls = IT.alloutcomes(prep, meas, min(n, 2))
    cx.check({o.rep for o in alls} == {o for o in outs if 0 < sum(x != y for x, y in zip(o, expected)) <= 2} and len(alls) == len(set(alls)), 'unexpected outcomes of bounded weight')
    cx.check({o.rep for o in IT.alloutcomes(prep, meas, 1)} == {o for o in outs if sum(x != y for x, y in zip(o, expected)) == 1}, 'unexpected outcomes of weight one')
    for o in outs:
        if set(err) != {'I'}:
            if o != expected:
                cx.check(IC.stochastic_jac_element(prep, E, meas, PO.NQOutcome(o)) == np.trace(effect(meas, o) @ deriv('S', err, rho, n)).real, 'stochastic entry')
            cx.check(abs(IC.affine_jac_element(prep, E, meas, PO.NQOutcome(o)) - np.trace(effect(meas, o) @ deriv('A', err, rho, n)).real) < 1e-9, 'affine entry')


@harness(params=[dict(n=n, w=w) for n, w in ((1, 1), (2, 1), (3, 1), (2, 2), (3, 2), (4, 2))], encodes=['allerrors', 'allobservables', 'NQOutcome.Weight1String', 'NQOutcome.Weight2String'],
         bounds='1 to 4 qubits, weight 1 and 2', logic='QF_FD', **COMMON)
def lists(cx):
    """all errors and observables of the stated weight, each once"""
    n, w = cx.p['n'], cx.p['w']
    errs = IT.allerrors(n, w)
    want = {''.join(s) for s in itertools.product('IXYZ', repeat=n) if 0 < n - s.count('I') <= w}
    cx.check([e.sign for e in errs] == [1] * len(errs) and {e.rep for e in errs} == want and len(errs) == len(want), 'errors')
    meas = PO.NQPauliState(pstr(cx, "m", n, "XYZ"), signs(cx, "s", n) if n < 3 else (1, -1, 1, 1)[:n])
    obs = IT.allobservables(meas, w)
    wo = {''.join(m if k else 'I' for m, k in zip(meas.rep, ks)) for ks in itertools.product((0, 1), repeat=n) if 0 < sum(ks) <= w}
    cx.check([o.sign for o in obs] == [1] * len(obs) and {o.rep for o in obs} == wo and len(obs) == len(wo), 'observables')
    i = cx.choice('i', range(n))
    cx.check(PO.NQOutcome.Weight1String(n, i).rep == ''.join('1' if k == i else '0' for k in range(n)), 'outcome string')
    if n > 1:
        j = (i + 1) % n
        cx.check(PO.NQOutcome.Weight2String(n, i, j).rep == ''.join('1' if k in (i, j) else '0' for k in range(n)), 'outcome string')


PREP = {'X': ('Gy',), 'Y': ('Gx',) * 3, 'Z': (), '-X': ('Gy',) * 3, '-Y': ('Gx',), '-Z': ('Gx', 'Gx')}
MEAS = {'X': ('Gy',) * 3, 'Y': ('Gx',), 'Z': (), '-X': ('Gy',), '-Y': ('Gx',) * 3, '-Z': ('Gx', 'Gx')}
PLUS = {'+X': ('Gy',), 'Y': ('Gx',) * 3, '+Z': ()}


@harness(params=[dict(n=n) for n in (1, 2)], encodes=['NQPauliState.to_circuit', 'preferred_signs_from_paulidict', 'fidpairs_to_pauli_fidpairs'],
         bounds='every signed Pauli state on 1 and 2 qubits', logic='QF_FD', **COMMON)
def fiducials(cx):
    """fiducial circuits contain, per qubit, the gates of the basis dictionary, and are recognised again"""
    n = cx.p['n']
    st = PO.NQPauliState(pstr(cx, 'p', n, 'XYZ'), list(signs(cx, 's', n)))
    me = PO.NQPauliState(pstr(cx, 'q', n, 'XYZ'), list(signs(cx, 't', n)))
    cs = []
    for x, D in ((st, PREP), (me, MEAS)):
        c = x.to_circuit(D)
        cs.append(c)
        cx.check(c.line_labels == tuple(range(n)), 'lines of the circuit')
        for q, (s, l) in enumerate(zip(x.signs, x.rep)):
            got = [g.name for i in range(c.depth()) for g in c.get_layer(i) if g.sslbls == (q,)]
            cx.check(tuple(got) == D[('-' if s == -1 else '') + l], 'gates on a qubit')
        cx.check(c.depth() == max(len(D[('-' if s == -1 else '') + l]) for s, l in zip(x.signs, x.rep)), 'depth')
    back = IC.fidpairs_to_pauli_fidpairs([tuple(cs)], (PREP, MEAS), n)
    cx.check(len(back) == 1 and back[0] == (st, me), 'Pauli states recovered from the circuits')
    if -1 in st.signs:
        cx.check_raises(lambda: st.to_circuit(PLUS), 'missing basis', ValueError)
    else:
        st.to_circuit(PLUS)
    cx.check(IC.preferred_signs_from_paulidict(PREP) == ('+', '-', '+') and IC.preferred_signs_from_paulidict(MEAS) == ('-', '+', '+'), 'preferred signs')


def shorter(D, l): return '-' if len(D['-' + l]) < len(D[l]) else '+'


@harness(params=[dict(n=n, w=w, k=k) for n, w in ((1, 1), (2, 1), (3, 1), (2, 2)) for k in ('H', 'S', 'SA')], thorough_params=[dict(n=3, w=2, k=k) for k in ('H', 'S', 'SA')],
         encodes=['idle_tomography_fidpairs', 'tile_pauli_fidpairs', 'hamiltonian_jac_element', 'stochastic_jac_element', 'affine_jac_element', 'alloutcomes', 'allobservables', 'allerrors'],
         bounds='1 to 3 qubits with weight 1, 2 qubits with weight 2 (thorough 3), rates in [-1,1], every preferred sign', **COMMON)
def identifiable(cx):
    """the observed rates of the generated fiducial pairs determine the intrinsic rates"""
    n, w, k = cx.p['n'], cx.p['w'], cx.p['k']
    ps = [cx.choice('p%d' % i, ['+', '-']) for i in range(3)] if n == 1 else ['+', '-', '+']
    ms = [cx.choice('m%d' % i, ['+', '-']) for i in range(3)] if n == 1 else ['-', '+', '+']
    pairs = IC.idle_tomography_fidpairs(n, w, k == 'H', k != 'H', k == 'SA', 'auto', ps, ms)
    cx.check(len(set(map(str, pairs))) == len(pairs), 'repeated fiducial pairs')
    errs = IT.allerrors(n, w)
    x = cx.reals('x', len(errs) * (2 if k == 'SA' else 1), -1., 1.)
    for pr, me in pairs:
        if k == 'H':
            rows = [[IC.hamiltonian_jac_element(pr, e, o) for e in errs] for o in IT.allobservables(me, w)]
        else:
            rows = [[IC.stochastic_jac_element(pr, e, me, o) for e in errs] + ([IC.affine_jac_element(pr, e, me, o) for e in errs] if k == 'SA' else [])
                    for o in IT.alloutcomes(pr, me, w)]
        for r in rows:
            s = sum(float(c) * v for c, v in zip(r, x) if c)
            if not isinstance(s, int):
                cx.assume(s == 0)
    for v in x:
        cx.check(v == 0, 'a combination of intrinsic rates is not observed')


class Row(object):
    def __init__(self, counts, total): self.counts, self.total = counts, total


@harness(params=[dict(n=n, kind=k) for n in (1, 2) for k in ('out', 'obs')], encodes=['get_obs_samebasis_err_rate', 'get_obs_diffbasis_err_rate', 'NQPauliState.to_circuit'],
         bounds='1 and 2 qubits, two lengths, every count (at least one half) of every outcome of 64 repetitions, every signs of the measurement', **COMMON)
def observed_rates(cx):
    """the observed rate is the slope of the outcome's frequency, or of the observable's expectation value, with the length"""
    n = cx.p['n']
    pr = PO.NQPauliState('XZ'[:n], (1, -1)[:n])
    me = PO.NQPauliState('XZ'[:n], signs(cx, 's', n)) if cx.p['kind'] == 'out' else PO.NQPauliState('YX'[:n], signs(cx, 's', n))
    Ls = [1, 4]
    Gi = Circuit(((),), num_lines=n)
    outs = [''.join(o) for o in itertools.product('01', repeat=n)]
    ds, fr = {}, {}
    for L in Ls:
        c = [cx.real('c%d_%s' % (L, o), .5, 60.) for o in outs[:-1]]
        c.append(64. - sum(c))
        cx.assume(c[-1] >= .5)
        ds[pr.to_circuit(PREP) + Gi * L + me.to_circuit(MEAS)] = Row({(o,): x for o, x in zip(outs, c)}, 64.)
        fr[L] = {o: x / 64. for o, x in zip(outs, c)}
    if cx.p['kind'] == 'out':
        o = cx.choice('o', outs)
        r = IC.get_obs_samebasis_err_rate(ds, (pr, me), (PREP, MEAS), Gi, PO.NQOutcome(o), Ls, 1)
        data = [fr[L][o] for L in Ls]
    else:
        mask = cx.choice('mask', [m for m in itertools.product((0, 1), repeat=n) if any(m)])
        ob = PO.NQPauliOp(''.join(x if m else 'I' for x, m in zip(me.rep, mask)))
        r = IC.get_obs_diffbasis_err_rate(ds, (pr, me), (PREP, MEAS), Gi, ob, Ls, 1)
        M = mx(ob.rep)
        data = [sum(float(np.trace(M @ effect(me, o)).real) * x for o, x in fr[L].items()) for L in Ls]
    cx.check_close(list(r['data']), data, 'fitted data')
    cx.check_close(r['rate'], (data[1] - data[0]) / (Ls[1] - Ls[0]), 'rate')
    cx.check(r['fitOrder'] == 1, 'fit order')
    for w in r['weights']:
        cx.check(w > 0, 'weights')
    for e, f in zip(r['errbars'], data) if n == 1 or cx.p['kind'] == 'obs' else ():       # standard deviation of a frequency, or of twice the frequency of an even outcome
        cx.check_close(e * e, f * (1 - f) / 64 if cx.p['kind'] == 'out' else (1 - f * f) / 64, 'error bars')
        cx.check(e >= 0, 'error bars')


@harness(params=[dict(n=1, w=1, mode=m, inc=i, L=L) for m in ('separate', 'together') for i in ('HSA', 'HS', 'S', 'SA', 'H') for L in ((1, 3),)] + [dict(n=2, w=1, mode='separate', inc='HSA', L=(0, 2))],
         thorough_params=[dict(n=2, w=1, mode='together', inc='HSA', L=(1, 2)), dict(n=2, w=2, mode='separate', inc='HS', L=(1, 2))],
         encodes=['do_idle_tomography', 'make_idle_tomography_list', 'idle_tomography_fidpairs'],
         bounds='1 qubit (2 qubits with weight 1; thorough weight 2), two lengths, data exactly linear in symbolic rates in [-0.01,0.01], both Jacobian modes, listed error types', **COMMON)
def recovery(cx):
    """data generated from intrinsic rates give these rates"""
    n, w, inc, Ls = cx.p['n'], cx.p['w'], cx.p['inc'], cx.p['L']
    N = 1024.
    errs = [e.rep for e in IT.allerrors(n, w)]
    rates = {t: cx.reals('r' + t, len(errs), -.01, .01) for t in inc}
    ps = [shorter(PREP, l) for l in 'XYZ']
    ms = [shorter(MEAS, l) for l in 'XYZ']
    ds = {}
    Gi = Circuit(((),), num_lines=n)
    pairs = IC.idle_tomography_fidpairs(n, w, 'H' in inc, 'S' in inc, 'A' in inc, 'auto', ps, ms)
    circs = IC.make_idle_tomography_list(n, Ls, (PREP, MEAS), w, ((),), 'H' in inc, 'S' in inc, 'A' in inc)
    cx.check(len(circs) == len(pairs) * len(Ls), 'number of circuits')
    for pr, me in pairs:
        rho = state(pr)
        d = {(t, e): deriv(t, e, rho, n) for t in inc for e in errs}
        pr_c, me_c = pr.to_circuit(PREP), me.to_circuit(MEAS)
        for L in Ls:
            cnt = {}
            for o in itertools.product('01', repeat=n):
                E = effect(me, o)
                p = float(np.trace(E @ rho).real)
                for t in inc:
                    for e, r in zip(errs, rates[t]):
                        c = float(np.trace(E @ d[t, e]).real)
                        if abs(c) > 1e-12:
                            p = p + L * c * r
                cnt[(''.join(o),)] = N * p
            ds[pr_c + Gi * L + me_c] = Row(cnt, N)
    cx.check(set(ds) == set(circs), 'circuits of the experiment')
    def rate(data):      # (the fits are the subject of observed_rates)
        return {'rate': (data[1] - data[0]) / (Ls[1] - Ls[0])}

    def same(dataset, fidpair, dicts, idle, outcome, lengths, order=1):
        pr, me = fidpair
        return rate([dataset[pr.to_circuit(dicts[0]) + idle * L + me.to_circuit(dicts[1])].counts[(outcome.rep,)] / N for L in lengths])

    def diff(dataset, fidpair, dicts, idle, observable, lengths, order=1):
        pr, me = fidpair
        M = mx(observable.rep)
        return rate([sum(float(np.trace(M @ effect(me, o)).real) * x for (o,), x in dataset[pr.to_circuit(dicts[0]) + idle * L + me.to_circuit(dicts[1])].counts.items()) / N for L in lengths])
    keep = IC.get_obs_samebasis_err_rate, IC.get_obs_diffbasis_err_rate
    IC.get_obs_samebasis_err_rate, IC.get_obs_diffbasis_err_rate = same, diff
    try:
        res = IC.do_idle_tomography(n, ds, Ls, (PREP, MEAS), w, ((),), 'H' in inc, 'S' in inc, 'A' in inc, advancedOptions={'jacobian mode': cx.p['mode']})
    finally:
        IC.get_obs_samebasis_err_rate, IC.get_obs_diffbasis_err_rate = keep
    nm = {'H': 'hamiltonian', 'S': 'stochastic', 'A': 'affine'}
    cx.check(set(res.intrinsic_rates) == {nm[t] for t in inc}, 'kinds of rates')
    cx.check([e.rep for e in res.error_list] == errs, 'error list')
    for t in inc:
        cx.check_close(list(res.intrinsic_rates[nm[t]]), list(rates[t]), 'intrinsic rates ' + nm[t], tol=1e-6)
