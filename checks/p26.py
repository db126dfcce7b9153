"""P26: experiment designs contain exactly the stated circuits (construction/circuitconstruction, stdlists, objects/circuitstructure)."""
import itertools
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti.objects.label import Label
from pygsti.objects.circuit import Circuit
from pygsti.objects.circuitstructure import LsGermsStructure, LsGermsSerialStructure
from pygsti.construction import circuitconstruction as CC, stdlists as SL

MODS = ['pygsti.objects.label', 'pygsti.objects.circuit', 'pygsti.construction.circuitconstruction', 'pygsti.construction.stdlists', 'pygsti.objects.circuitstructure']
META = {'assumptions': ['gate labels without lines on circuits with one line "*" (filter_circuit: gates on up to 3 lines); the solver decides which gates a circuit is made of: symbolic gate names where no set or '
                        'dictionary of circuits is needed, a symbolic choice among the listed circuits and lists elsewhere',
                        'outside: list_random_circuits_onelen (random), keys of create_circuit_list that are substrings of each other, the choice made by the random number generator for keepFraction (only its size and '
                        'membership are checked), multi-qubit germ/fiducial selection']}
L = 'QF_FD'
ST = ('*',)
G = ('Gx', 'Gy', 'Gi')


def C(names):
    return Circuit([Label(n) for n in names], ST)


def T(c):
    """names of the gates of a circuit, in order"""
    return tuple(l.name if isinstance(l, Label) else l for l in tuple(c))


def sym(cx, nm, n, names=G):
    return [cx.fd('%s%d' % (nm, i), list(names)) for i in range(n)]


def names_eq(a, b):
    return len(a) == len(b) and (land(*[x == y for x, y in zip(a, b)]) if len(a) else True)


@harness(params=[dict(n=n) for n in range(4)], thorough_params=[dict(n=4), dict(n=5)], modules=MODS, logic=L,
         encodes=['repeat', 'repeat_count_with_max_length', 'repeat_with_max_length', 'repeat_and_truncate', 'repeat_remainder_for_truncation', '_getTruncFunction'],
         bounds='germs of 0..3 symbolic gates, lengths 0..9')
def powers(cx):
    n = cx.p['n']
    x = sym(cx, 'g', n); c = C(x); N = cx.bv('N', 0, 9)
    N = cx.choice('Nc', list(range(10))) if n else 3
    k = N // n if n else 0
    whole = list(x) * k
    inf = (list(x) * (N + 1))[:N] if n else []
    cx.check(CC.repeat_count_with_max_length(c, N) == k, 'number of germ powers')
    cx.check(names_eq(T(CC.repeat_with_max_length(c, N)), whole), 'whole germ powers')
    cx.check(names_eq(T(CC.repeat_and_truncate(c, N)), inf), 'truncated germ powers')
    cx.check(names_eq(T(CC.repeat_remainder_for_truncation(c, N)), inf[len(whole):]), 'remainder completes the whole powers')
    for sch, w in (('whole germ powers', whole), ('truncated germ powers', inf), ('length as exponent', list(x) * N)):
        cx.check(names_eq(T(SL._getTruncFunction(sch)(c, N)), w), sch)
    cx.check_raises(lambda: SL._getTruncFunction('other'), 'unknown truncation scheme', ValueError)
    if n and N < n:
        cx.check_raises(lambda: CC.repeat_with_max_length(c, N, True), 'at least one repetition', AssertionError)
        cx.check_raises(lambda: CC.repeat_count_with_max_length(c, N, True), 'at least one repetition', AssertionError)
    elif n:
        cx.check(names_eq(T(CC.repeat_with_max_length(c, N, True)), whole), 'whole germ powers, at least one')


def dd(l):
    out = []
    for x in l:
        if x not in out: out.append(x)
    return out


def lgst(preps, effs, ops):
    return dd([e for e in effs] + [p for p in preps] + [p + e for p in preps for e in effs] + [p + (g,) + e for g in ops for p in preps for e in effs])


def power(sch, g, N):
    if sch == 'whole germ powers': return g * (N // len(g) if g else 0)
    if sch == 'truncated germ powers': return (g * (N + 1))[:N]
    return g * N


PREPS = [[(), ('Gx',)], [('Gx',), ('Gy',)], [('Gx', 'Gx')], [('Gy',), ('Gx', 'Gx'), ()]]
EFFS = [[(), ('Gy',)], [('Gx',), ('Gx', 'Gx')], [('Gy', 'Gx')]]
GERMS = [[('Gx',)], [('Gx',), ('Gx', 'Gy')], [('Gx', 'Gi', 'Gy'), ('Gy',)], [('Gi',), ('Gi', 'Gi')]]
LENS = [[1], [1, 2], [1, 3, 4], [2, 5], [0, 2]]
SCH = ('whole germ powers', 'truncated germ powers', 'length as exponent')


def design(cx, pairs=True):
    P, E, Ge, Ls = cx.choice('preps', PREPS), cx.choice('effs', EFFS), cx.choice('germs', GERMS), cx.choice('Ls', LENS)
    full = [(i, j) for i in range(len(P)) for j in range(len(E))]
    mode = cx.p.get('pairs', 'none')
    keep = None
    if mode != 'none':
        sub = cx.choice('sub', [full[:1], full[-1:], full[::2], full[1:] + full[:1]])
        keep = {g: sub for g in Ge} if mode == 'list' else {g: (sub if k % 2 == 0 else full[::-1][:2]) for k, g in enumerate(Ge)}
    return P, E, Ge, Ls, full, keep


def cc(l): return [C(x) for x in l]


DP = [dict(sch=s, nest=n, lgst=l, pairs=p) for s in SCH for n in (True, False) for l in (True, False) for p in ('none', 'list', 'dict')]


def want_lists(P, E, Ge, Ls, full, keep, sch, nest, inc, limits=None):
    lg = lgst(P, E, G)
    run = list(lg) if inc else [()]
    out = []
    for N in Ls:
        lst = []
        if N == 0: lst += lg
        else:
            for g in Ge:
                if limits and N > limits.get(g, 1e100): continue
                for i, j in (keep[g] if keep else full):
                    lst.append(P[i] + power(sch, g, N) + E[j])
        run = run + lst
        out.append(dd(run) if nest else dd(lst))
    return out


@harness(params=DP, modules=MODS, logic=L, encodes=['make_lsgst_lists', 'make_lsgst_experiment_list', 'list_lgst_circuits', 'create_circuit_list'],
         bounds='1-3 fiducials, 1-2 germs of up to 3 gates, 1-3 lengths up to 5, all schemes, nesting and fiducial-pair reductions')
def lists(cx):
    p = cx.p
    P, E, Ge, Ls, full, keep = design(cx)
    fp = None if keep is None else (list(keep.values())[0] if p['pairs'] == 'list' else {C(g): v for g, v in keep.items()})
    limits = cx.choice('lim', [None, {Ge[0]: 2}])
    a = dict(fidPairs=fp, truncScheme=p['sch'], includeLGST=p['lgst'])
    got = SL.make_lsgst_lists(list(G), cc(P), cc(E), cc(Ge), Ls, nest=p['nest'], germLengthLimits=None if limits is None else {C(k): v for k, v in limits.items()}, **a)
    want = want_lists(P, E, Ge, Ls, full, keep, p['sch'], p['nest'], p['lgst'], limits)
    cx.check(len(got) == len(Ls), 'one list per length')
    for k, (g, w) in enumerate(zip(got, want)):
        t = [T(c) for c in g]
        cx.check(set(t) == set(w), 'circuits of the list for length %s: extra %s, missing %s' % (Ls[k], sorted(set(t) - set(w))[:2], sorted(set(w) - set(t))[:2]))
        cx.check(len(set(t)) == len(t), 'a circuit is listed twice')
        if p['nest'] and k:
            cx.check(t[:len(got[k - 1])] == [T(c) for c in got[k - 1]], 'later lists begin with the earlier ones')
        cx.check(all(c.line_labels == ST for c in g if len(c)), 'lines of the circuits')
    if p['nest'] and limits is None:
        e = SL.make_lsgst_experiment_list(list(G), cc(P), cc(E), cc(Ge), Ls, **a)
        cx.check(set(T(c) for c in e) == set(want[-1]) and len(e) == len(want[-1]), 'experiment list')


@harness(params=DP, modules=MODS, logic=L, encodes=['make_lsgst_structs', 'LsGermsStructure.add_plaquette', 'LsGermsStructure.create_plaquette', 'LsGermsStructure.get_plaquette', 'LsGermsStructure.truncate', 'LsGermsStructure.copy',
                                                    'LsGermsStructure.add_unindexed', 'CircuitPlaquette.get_all_strs', 'CircuitStructure.get_basestrings', 'CircuitStructure.used_xvals'],
         bounds='as lists; truncation to prefixes of the lengths and to single germs')
def structs(cx):
    p = cx.p
    P, E, Ge, Ls, full, keep = design(cx)
    fp = None if keep is None else (list(keep.values())[0] if p['pairs'] == 'list' else {C(g): v for g, v in keep.items()})
    
    got = SL.make_lsgst_structs(list(G), cc(P), cc(E), cc(Ge), list(Ls), fidPairs=fp, truncScheme=p['sch'], nest=p['nest'], includeLGST=p['lgst'])
    lg = lgst(P, E, G)
    cx.check(len(got) == len(Ls), 'one structure per length')
    acc = []
    for k, (s, N) in enumerate(zip(got, Ls)):
        new = []
        if N == 0: new += lg
        else:
            if k == 0 and p['lgst']: new += [P[i] + E[j] for i, j in full] + lg
            for g in Ge:
                new += [P[i] + power(p['sch'], g, N) + E[j] for i, j in (keep[g] if keep else full)]
        acc = dd(acc + new)
        w = acc if p['nest'] else dd(new)
        t = [T(c) for c in s.allstrs]
        cx.check(set(t) == set(w), 'circuits of the structure for length %s: extra %s, missing %s' % (N, sorted(set(t) - set(w))[:2], sorted(set(w) - set(t))[:2]))
        cx.check(len(set(t)) == len(t), 'a circuit is listed twice')
        cx.check(set(T(c) for c in s.allstrs_set) == set(t), 'set of the circuits')
        cx.check(s.Ls == (Ls[:k + 1] if p['nest'] else [N]), 'lengths of the structure')
        cx.check([T(g) for g in s.germs] == ([()] if p['lgst'] else []) + Ge, 'germs of the structure')
        for N2 in (Ls[:k + 1] if p['nest'] else [N]):
            if N2 == 0: continue
            bases = []
            for g in Ge:
                pl = s.get_plaquette(N2, C(g), onlyfirst=False)
                prs = keep[g] if keep else full
                b = power(p['sch'], g, N2)
                cx.check(T(pl.base) == b, 'base circuit of the plaquette')
                cx.check([(a, c, T(x)) for a, c, x in pl] == [(j, i, P[i] + b + E[j]) for i, j in prs], 'elements of the plaquette (row = effect, column = preparation)')
                cx.check([(T(a), T(c)) for a, c in pl.fidpairs] == [(P[i], E[j]) for i, j in prs], 'fiducial pairs of the plaquette')
                cx.check((pl.rows, pl.cols) == (len(E), len(P)) == s.plaquette_rows_cols(), 'shape of the plaquette')
                cx.check(len(pl) == len(prs) and [T(x) for x in pl.get_all_strs()] == [P[i] + b + E[j] for i, j in prs], 'list of the plaquette')
        # plaquettes shown once per base circuit
        seen = []
        for N2 in s.Ls:
            for g in [T(x) for x in s.germs]:
                if (N2, C(g)) in s._plaquettes and len(s.get_plaquette(N2, C(g))) > 0: seen.append(T(s.get_plaquette(N2, C(g)).base))
        cx.check(len(seen) == len(set(seen)), 'a base circuit is shown in two plaquettes')
    s = got[-1]
    before = ([T(c) for c in s.allstrs], [T(c) for c in s.unindexed])
    if p['nest']:
        for n in range(1, len(Ls) + 1):
            t = s.truncate(Ls=s.Ls[0:n])
            if n > 0 and (p['lgst'] or 0 not in Ls[:n]):
                # the LGST circuits (not indexed by a length) are kept
                want = set(T(c) for c in got[n - 1].allstrs) | set(T(c) for c in s.unindexed)
                have = [T(c) for c in t.allstrs]
                cx.check(set(have) == want, 'truncation to the first %d lengths: extra %s, missing %s' % (n, sorted(set(have) - want)[:2], sorted(want - set(have))[:2]))
                cx.check(set(have) <= set(before[0]), 'a truncated structure has circuits that the original has not')
                cx.check(t.Ls == s.Ls[:n], 'lengths kept')
        cpy = s.copy()
        cx.check([T(c) for c in cpy.allstrs] == before[0] and cpy.Ls == s.Ls and set(cpy._plaquettes) == set(s._plaquettes), 'copy')
        cpy.add_plaquette(C(('Gi',) * 7), 7, C(('Gi',))); cpy.Ls.append(7)
        cx.check([T(c) for c in s.allstrs] == before[0] and s.Ls == Ls and (7, C(('Gi',))) not in s._plaquettes, 'changing a copy changes the original')
        t = s.truncate(germs=[C(Ge[-1])])
        want = set(T(c) for c in s.unindexed)
        for N2 in Ls:
            if N2: want |= {P[i] + power(p['sch'], Ge[-1], N2) + E[j] for i, j in (keep[Ge[-1]] if keep else full)}
        cx.check(set(T(c) for c in t.allstrs) == want, 'truncation to one germ')
        cx.check(([T(c) for c in s.allstrs], [T(c) for c in s.unindexed]) == before, 'truncation changes the original')


@harness(params=[dict(kind=k) for k in ('seqs', 'preps', 'process', 'serial', 'missing')], modules=MODS, logic=L,
         encodes=['LsGermsStructure.truncate', 'LsGermsStructure.process_circuits', 'LsGermsSerialStructure.add_plaquette', 'LsGermsSerialStructure.create_plaquette', 'LsGermsSerialStructure.truncate', 'make_lsgst_structs', 'LsGermsStructure.add_plaquette'],
         bounds='2-3 fiducials, 1-2 germs, lengths up to 5')
def structs2(cx):
    k = cx.p['kind']
    P, E, Ge, Ls = cx.choice('preps', PREPS[:2]), cx.choice('effs', EFFS[:2]), cx.choice('germs', GERMS[1:3]), cx.choice('Ls', [[1, 2], [1, 3, 4]])
    full = [(i, j) for i in range(len(P)) for j in range(len(E))]
    mk = lambda **a: SL.make_lsgst_structs(list(G), cc(P), cc(E), cc(Ge), list(Ls), **a)[-1]
    if k == 'seqs':
        s = mk(); t0 = [T(c) for c in s.allstrs]
        r = cx.choice('r', [0, 1, 2]); keep = [c for i, c in enumerate(t0) if i % 3 != r]
        t = s.truncate(seqs=cc(keep))
        un = set(T(c) for c in s.unindexed)
        cx.check(set(T(c) for c in t.allstrs) <= set(t0), 'truncation adds circuits')
        cx.check(set(T(c) for c in t.allstrs) - un == set(keep) - un, 'exactly the listed circuits of the plaquettes are kept')
    elif k == 'preps':
        s = mk(includeLGST=False)
        t = s.truncate(prepStrs=cc(P[1:]), effectStrs=cc(E[:1]))
        want = {p + power('whole germ powers', g, N) + E[0] for p in P[1:] for g in Ge for N in Ls}
        cx.check(set(T(c) for c in t.allstrs) == want, 'truncation to some of the fiducials')
        cx.check([T(c) for c in t.minor_xvals()] == P[1:] and [T(c) for c in t.minor_yvals()] == E[:1], 'fiducials kept')
    elif k == 'process':
        s = mk(); f = lambda x: tuple({'Gx': 'Ga', 'Gy': 'Gb'}.get(n, n) for n in x)
        t = s.process_circuits(lambda c: C(f(T(c))))
        cx.check([T(c) for c in t.allstrs] == [f(T(c)) for c in s.allstrs] and [T(c) for c in t.unindexed] == [f(T(c)) for c in s.unindexed], 'processed circuits')
        cx.check([T(g) for g in t.germs] == [f(T(g)) for g in s.germs] and [T(g) for g in t.prepStrs] == [f(g) for g in P] and [T(g) for g in t.effectStrs] == [f(g) for g in E], 'processed germs and fiducials')
        for N in Ls:
            for g in Ge:
                a = s.get_plaquette(N, C(g)); b = t.get_plaquette(N, C(f(g)))
                cx.check([(i, j, f(T(x))) for i, j, x in a] == [(i, j, T(x)) for i, j, x in b] and f(T(a.base)) == T(b.base), 'processed plaquettes are found under the processed germs')
    elif k == 'serial':
        s = LsGermsSerialStructure(list(Ls), cc(Ge), 2, 2)
        sub = cx.choice('sub', [full[:1], full[::2], full[1:], full])
        for N in Ls:
            for g in Ge: s.add_plaquette(C(power(SCH[0], g, N)), N, C(g), [(C(P[i]), C(E[j])) for i, j in sub])
        want = {P[i] + power(SCH[0], g, N) + E[j] for N in Ls for g in Ge for i, j in sub}
        cx.check(set(T(c) for c in s.allstrs) == want and len(s.allstrs) == len(want), 'circuits of the serial structure')
        for N in Ls:
            for g in Ge:
                el = list(s.get_plaquette(N, C(g), onlyfirst=False))
                cx.check([T(x) for i, j, x in el] == [P[i] + power(SCH[0], g, N) + E[j] for i, j in sub], 'elements of the serial plaquette')
                cx.check(len({(i, j) for i, j, x in el}) == len(el) and all(0 <= i < 2 and 0 <= j < 2 for i, j, x in el), 'positions in the serial plaquette')
        t = s.truncate(Ls=Ls[:1], germs=cc(Ge[:1]), nMinorRows='auto', nMinorCols='auto')
        cx.check(set(T(c) for c in t.allstrs) == {P[i] + power(SCH[0], Ge[0], Ls[0]) + E[j] for i, j in sub} and t.nMinorRows * t.nMinorCols >= len(sub), 'truncated serial structure')
        t = s.copy(); t.add_unindexed([C(('Gi',) * 6)])
        cx.check(len(s.allstrs) == len(want) and len(t.allstrs) == len(want) + 1 and [T(c) for c in t.unindexed] == [('Gi',) * 6], 'copy of a serial structure')
    else:
        s = mk(); t0 = [T(c) for c in s.allstrs]
        miss = t0[cx.choice('m', [0, 1, 5, 8, len(t0) - 1])]
        ds = set(cc([c for c in t0 if c != miss]))
        t = SL.make_lsgst_structs(list(G), cc(P), cc(E), cc(Ge), list(Ls), dscheck=ds, actionIfMissing='drop')[-1]
        cx.check([T(c) for c in t.allstrs if True] and set(T(c) for c in t.allstrs) == set(t0) - {miss}, 'circuits without data are dropped, and only these')
        for N in Ls:
            for g in Ge:
                el = list(t.get_plaquette(N, C(g), onlyfirst=False)); b = power(SCH[0], g, N)
                cx.check([(j, i, T(x)) for j, i, x in el] == [(j, i, P[i] + b + E[j]) for i, j in full if P[i] + b + E[j] != miss], 'elements of a plaquette with missing data')
        cx.check_raises(lambda: SL.make_lsgst_structs(list(G), cc(P), cc(E), cc(Ge), list(Ls), dscheck=ds, actionIfMissing='raise'), 'missing data raises', ValueError)


@harness(params=[dict(pairs=p, fn=f) for p in ('none', 'list', 'dict') for f in ('lists', 'structs')], modules=MODS, logic=L, encodes=['make_lsgst_lists', 'make_lsgst_structs'],
         bounds='keep fractions 1/4, 1/2, 3/4, two seeds')
def kept_fraction(cx):
    p = cx.p
    P, E = cx.choice('preps', PREPS[:2]), cx.choice('effs', EFFS[:2]); Ge = GERMS[1]; N = cx.choice('N', [1, 3])
    full = [(i, j) for i in range(len(P)) for j in range(len(E))]
    keep = {'none': {g: [] for g in Ge}, 'list': {g: [(1, 0)] for g in Ge}, 'dict': {Ge[0]: [(0, 1), (1, 1)], Ge[1]: [(0, 0)]}}[p['pairs']]
    fp = {'none': None, 'list': [(1, 0)], 'dict': {C(g): v for g, v in keep.items()}}[p['pairs']]
    fr = cx.choice('fr', [0.25, 0.5, 0.75]); seed = cx.choice('seed', [1, 77])
    a = dict(fidPairs=fp, keepFraction=fr, keepSeed=seed, includeLGST=False, nest=False)
    for g in Ge:
        Lm = {h: (100 if h == g else 0) for h in Ge}
        a['germLengthLimits'] = {C(h): v for h, v in Lm.items()}
        if p['fn'] == 'lists': t = [T(c) for c in SL.make_lsgst_lists(list(G), cc(P), cc(E), cc(Ge), [N], **a)[0]]
        else: t = [T(c) for c in SL.make_lsgst_structs(list(G), cc(P), cc(E), cc(Ge), [N], **a)[0].allstrs]
        b = power(SCH[0], g, N)
        al = [P[i] + b + E[j] for i, j in full]
        cx.check(all(x in al for x in t), 'kept circuits are among the stated ones')
        cx.check(all(P[i] + b + E[j] in t for i, j in keep[g]), 'the chosen fiducial pairs are always kept')
        n = max(len(keep[g]), int(round(fr * len(full))))
        if len(set(al)) == len(al): cx.check(len(t) == n, 'number of kept circuits')


@harness(params=[dict(nest=n, lgst=l, sch=s) for n in (True, False) for l in (True, False) for s in SCH], modules=MODS, logic=L, encodes=['make_elgst_lists', 'make_elgst_experiment_list'], bounds='as lists')
def elgst(cx):
    p = cx.p
    Ge, Ls = cx.choice('germs', GERMS), cx.choice('Ls', LENS)
    got = SL.make_elgst_lists(list(G), cc(Ge), Ls, p['sch'], p['nest'], p['lgst'])
    single = [(g,) for g in G]
    run = list(single) if p['lgst'] else [()]
    for k, N in enumerate(Ls):
        lst = list(single) if N == 0 else [power(p['sch'], g, N) for g in Ge]
        run += lst
        w = set(single + run) if p['nest'] else set(lst)
        t = [T(c) for c in got[k]]
        cx.check(set(t) == w and len(set(t)) == len(t), 'circuits of the list: %s' % sorted(set(t) ^ w)[:2])
    if p['nest']: cx.check([T(c) for c in SL.make_elgst_experiment_list(list(G), cc(Ge), Ls, p['sch'], p['lgst'])] == [T(c) for c in got[-1]], 'experiment list')


@harness(params=[dict(n=n) for n in (1, 2, 3)], modules=MODS, logic=L, encodes=['list_all_circuits', 'gen_all_circuits', 'list_all_circuits_onelen', 'gen_all_circuits_onelen', 'list_all_circuits_without_powers_and_cycles', 'list_partial_strings',
                                                                               'Circuit.to_pythonstr', 'Circuit.from_pythonstr'], bounds='1-3 gates, lengths 0..4')
def exhaustive(cx):
    ops = list(G[:cx.p['n']]); lo, hi = cx.choice('lo', [0, 1, 2]), cx.choice('hi', [1, 2, 3, 4])
    want = [w for N in range(lo, hi + 1) for w in itertools.product(ops, repeat=N)]
    for nm, l in (('list', CC.list_all_circuits(ops, lo, hi)), ('gen', list(CC.gen_all_circuits(ops, lo, hi)))):
        t = [T(c) for c in l]
        cx.check(len(t) == len(want) and set(t) == set(want), 'every circuit exactly once (%s)' % nm)
        cx.check([len(x) for x in t] == sorted(len(x) for x in t), 'ordered by length')
    one = list(itertools.product(ops, repeat=hi))
    cx.check([T(c) for c in CC.list_all_circuits_onelen(ops, hi)] == one and [T(c) for c in CC.gen_all_circuits_onelen(ops, hi)] == one, 'one length')
    t = [T(c) for c in CC.list_all_circuits_without_powers_and_cycles(ops, hi)]
    cls = lambda w: min(w[i:] + w[:i] for i in range(len(w)))
    prim = lambda w: not any(len(w) % d == 0 and w[:d] * (len(w) // d) == w for d in range(1, len(w)))
    want = {cls(w) for N in range(1, hi + 1) for w in itertools.product(ops, repeat=N) if prim(w)}
    cx.check(all(prim(w) for w in t), 'a listed circuit is a power')
    cx.check(len(t) == len(want) and {cls(w) for w in t} == want, 'one circuit per class of aperiodic circuits up to cycling')
    w = cx.choice('w', one[:20])
    cx.check([tuple(T(x)) for x in CC.list_partial_strings(C(w))] == [w[:i] for i in range(len(w) + 1)], 'partial circuits')


@harness(params=[dict(n=n) for n in range(4)], modules=MODS, logic=L, encodes=['translate_circuit', 'translate_circuit_list', 'compose_alias_dicts'], bounds='circuits of 0..3 gates, aliases of 0..2 gates')
def aliases(cx):
    n = cx.p['n']
    w = [cx.choice('w%d' % i, list(G)) for i in range(n)]
    al = cx.choice('al', [None, {}, {'Gx': ('Ga',)}, {'Gx': ('Ga', 'Gb'), 'Gy': ()}, {'Gx': ('Gy',), 'Gy': ('Gx', 'Gx'), 'Gz': ('Gi',)}])
    d = None if al is None else {Label(k): tuple(Label(x) for x in v) for k, v in al.items()}
    want = [x for g in w for x in ((al or {}).get(g, (g,)))]
    c = C(w)
    cx.check(list(T(CC.translate_circuit(c, d))) == want, 'translated circuit')
    cx.check([list(T(x)) for x in CC.translate_circuit_list([c, C(())], d)] == [want, []], 'translated list')
    cx.check(CC.translate_circuit(c, d).line_labels == ST, 'lines of the translated circuit')
    if al:
        d2 = {Label(x): tuple(Label(y) for y in cx.choice('b' + x, [(), ('G1',), ('G1', 'G2')])) for x in sorted({x for v in al.values() for x in v})}
        cmp = CC.compose_alias_dicts(d, d2)
        for k, v in d.items():
            cx.check([l.name for l in cmp[k]] == [y.name for x in v for y in d2[x]], 'composed aliases')
        cx.check(set(cmp) == set(d), 'keys of the composed aliases')


RULES = [((('A',), ('B', 'C')),), ((('A', 'B'), ('A', 'D')),), ((('B', 'A'), ('D', 'A')),), ((('A', 'B'), ('A', 'D', 'D')), (('B',), ('E',))),
         ((('A',), ('B',)), (('B',), ('A', 'A'))), ((('A', 'A'), ('B',)),), ((('A', 'B', 'C'), ('A', 'B', 'E', 'E')), (('B', 'A'), ('D', 'A'))),
         ((('A', 'B', 'C'), ('A', 'B', 'E', 'E')), (('B', 'C'), ('D', 'D', 'D', 'C')))]


@harness(params=[dict(n=n, r=r) for n in (0, 1, 2, 3, 4) for r in range(len(RULES))], thorough_params=[dict(n=5, r=r) for r in range(len(RULES))], modules=MODS, logic=L, encodes=['manipulate_circuit', 'manipulate_circuit_list'],
         bounds='circuits of 0..4 gates of a 3-letter alphabet, 8 rule sets')
def rules(cx):
    w = tuple(cx.choice('w%d' % i, ['A', 'B', 'C']) for i in range(cx.p['n']))
    rl = RULES[cx.p['r']]
    # model: rules are found in order of position, then of the list; each replaces the part that differs, and no label is modified twice
    new = {}; used = [False] * len(w)
    for i in range(len(w)):
        for rule, rep in rl:
            n = len(rule); pre = 0
            while pre < min(n, len(rep)) and rule[pre] == rep[pre]: pre += 1
            post = 0
            if pre == 0:
                while post < min(n, len(rep)) and rule[-1 - post] == rep[-1 - post]: post += 1
            a, b = i + pre, i + n - post
            if w[i:i + n] == rule and not any(used[a:b]):
                used[a:b] = [True] * (b - a)
                new[a] = (b, rep[pre:len(rep) - post])
    want = []; i = 0
    while i < len(w):
        if i in new: want += list(new[i][1]); i = new[i][0]
        else: want.append(w[i]); i += 1
    lab = lambda x: tuple(Label('G' + y.lower()) for y in x)
    rs = [(lab(a), lab(b)) for a, b in rl]
    c = Circuit(lab(w), ST)
    exp = tuple('G' + x.lower() for x in want)
    cx.check(T(CC.manipulate_circuit(c, rs)) == exp, 'manipulated circuit %s: %s, expected %s' % (w, T(CC.manipulate_circuit(c, rs)), exp))
    cx.check([T(x) for x in CC.manipulate_circuit_list([c, c], rs)] == [exp, exp], 'manipulated list')
    cx.check(CC.manipulate_circuit(c, None) is c, 'no rules')


PATS = [(), ((0,),), ((1,), (2,)), ((0, 1),), ((0,), (1, 2)), (None,), ((2, 0), (1,))]


@harness(params=[dict(keep=k, new=n) for k in ((0,), (1, 0), (0, 1, 2), (2, 1)) for n in (False, True)], modules=MODS, logic=L, encodes=['filter_circuit', 'filter_circuits'], bounds='2 layers on 3 lines with symbolic gate names')
def filtering(cx):
    keep = cx.p['keep']; new = tuple('ABC'[:len(keep)]) if cx.p['new'] else None
    lay = []
    for i in range(2):
        lay.append([(cx.fd('n%d%d' % (i, k), ['Gx', 'Gy']), ls) for k, ls in enumerate(cx.choice('p%d' % i, PATS))])
    mkl = lambda layer: [Label(n, ls) for n, ls in layer]
    c = Circuit([Label(tuple(mkl(l))) if len(l) != 1 else mkl(l)[0] for l in lay], (0, 1, 2))
    m = dict(zip(keep, new)) if new else {k: k for k in keep}
    got = CC.filter_circuit(c, keep, new)
    cut = any(ls is not None and set(ls) & set(keep) and not set(ls) <= set(keep) for l in lay for n, ls in l)
    if cut:
        cx.check(got is None, 'a gate that acts on both kept and removed lines makes the circuit unfilterable'); return
    want = [[(n, None if ls is None else tuple(m[x] for x in ls)) for n, ls in l if ls is None or set(ls) <= set(keep)] for l in lay]
    R = [[(x.name, x.sslbls) for x in got[i].components] if got[i] != Label(()) else [] for i in range(len(got))]
    cx.check(len(R) == len(want), 'number of layers')
    for a, b in zip(R, want):
        a = sorted(a, key=lambda g: str(g[1])); b = sorted(b, key=lambda g: str(g[1]))
        cx.check(len(a) == len(b) and all(x[1] == y[1] for x, y in zip(a, b)) and land(*[x[0] == y[0] for x, y in zip(a, b)], True), 'gates kept, on their (new) lines')
    cx.check(tuple(got.line_labels) == tuple(new if new else keep), 'lines of the filtered circuit: %s' % (got.line_labels,))
    fs = CC.filter_circuits([c, c], keep, new)
    cx.check(len(fs) == 2 and tuple(fs[0].line_labels) == tuple(got.line_labels) and len(fs[0]) == len(got), 'list')


@harness(params=[dict(k=k) for k in range(4)], modules=MODS, logic=L, encodes=['list_strings_lgst_can_estimate', 'list_lgst_circuits'], bounds='2 fiducials on each side, 1-2 gates')
def lgst_lists(cx):
    P, E = [[(), ('Gx',)], [('Gx',), ('Gy',)], [('Gx',), ()], [('Gy', 'Gx'), ('Gx',)]][cx.p['k']], cx.choice('effs', [[(), ('Gx',)], [('Gy',), ('Gx',)], [('Gx', 'Gx'), ('Gy',)]])
    ops = cx.choice('ops', [['Gx'], ['Gx', 'Gy'], ['Gi']])
    got = [T(c) for c in CC.list_lgst_circuits(cc(P), cc(E), ops)]
    want = lgst(P, E, ops)
    cx.check(got == want or (set(got) == set(want) and len(got) == len(want)), 'LGST circuits')
    drop = cx.choice('drop', [None, 0, 1, 2, len(want) - 1])
    have = [c for i, c in enumerate(want) if i != drop]
    ds = {C(c): 1 for c in have}
    est = [T(c) for c in CC.list_strings_lgst_can_estimate(ds, cc(P), cc(E))]
    # every root with all preparation-root-measurement circuits in the data
    roots = {c[len(p):len(c) - len(e)] for c in have for p in P for e in E if len(c) >= len(p) + len(e) and c[:len(p)] == p and c[len(c) - len(e):] == e}
    exp = {r for r in roots if all(p + r + e in have for p in P for e in E)}
    cx.check(set(est) == exp and len(est) == len(set(est)), 'estimable circuits: %s, expected %s' % (sorted(est), sorted(exp)))


@harness(modules=MODS, logic=L, encodes=['create_circuit_list', 'circuit_list', 'simplify_str'], bounds='two loop variables of 2-3 entries, all orders; tuples, circuits and text')
def loops(cx):
    A = cx.choice('A', [[('Ga',), ('Gb',)], [('Ga', 'Gb'), (), ('Gc',)]]); B = cx.choice('B', [[('Gx',)], [('Gx',), ('Gy', 'Gx')]])
    kind = cx.choice('kind', ['circuit', 'tuple'])
    f = (lambda l: [C(x) for x in l]) if kind == 'circuit' else (lambda l: list(l))
    order = cx.choice('order', [None, ['A'], ['B'], ['A', 'B'], ['B', 'A']])
    a = {} if order is None else {'order': order}
    got = [T(c) for c in CC.create_circuit_list('A+B', '', 'B', A=f(A), B=f(B), **a)]
    w = [x + y for y in B for x in A] if order and order[0] == 'B' else [x + y for x in A for y in B]
    cx.check(got == w + [()] + list(B), 'nested loops')
    n = cx.choice('n', [0, 1, 2, 3])
    def chk(x): assert len(x) <= 1; return x
    got = [T(c) for c in CC.create_circuit_list('chk(A)+R(B,n)', A=f(A), B=f(B), R=lambda x, k: x * k, chk=chk, n=n, order=['A', 'B'])]
    cx.check(got == [x + y * n for x in A if len(x) <= 1 for y in B], 'functions, and entries whose assertion fails are skipped')
    cl = CC.circuit_list([C(A[0]), tuple(A[1]), list(B[0]), ''.join(B[-1])])
    cx.check([T(c) for c in cl] == [A[0], A[1], B[0], B[-1]], 'circuits from circuits, tuples, lists and text')
    cx.check_raises(lambda: CC.circuit_list([3]), 'not a circuit', ValueError)
