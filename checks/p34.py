"""P34: qubit graphs and device connectivity (objects/qubitgraph, processorspec, compilationlibrary)."""
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite
from pygsti.objects import qubitgraph as QG
from pygsti.objects import processorspec as PS
from pygsti.objects import compilationlibrary as CL
from pygsti.objects.circuit import Circuit
from pygsti.objects.label import Label

MODS = ['pygsti.objects.qubitgraph', 'pygsti.objects.processorspec', 'pygsti.objects.compilationlibrary']
META = {'assumptions': ['the adjacency matrix is symbolic; scipy\'s Floyd-Warshall runs on the (then concrete) matrix of each path',
                        'a processor specification / compilation library is the real object with stub models in place of the constructed Clifford model']}
COMMON = dict(modules=MODS, kinds='b', limit=300)
LABELS = {1: [[0]], 2: [[0, 1]], 3: [[0, 1, 2], ['Q2', 'Q0', 'Q1']], 4: [[3, 0, 1, 2], ['Q0', 'Q1', 'Q2', 'Q3']]}
REAL_FW = QG._fw


def fw(m, **kw):
    return REAL_FW(np.array([[int(bool(x)) if not isinstance(x, (int, np.integer)) or isinstance(x, bool) else int(x) for x in row] for row in m.tolist()]), **kw)


def adjacency(cx, n, directed, nm='a'):
    A = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            if i != j and (directed or i < j):
                A[i][j] = cx.bool('%s%d%d' % (nm, i, j))
    return A


def edge(A, directed, i, j):
    return A[i][j] if directed or i < j else A[j][i]


def reach(A, directed, k):
    """R[i][j]: j can be reached from i with at most k hops"""
    n = len(A)
    R = [[i == j for j in range(n)] for i in range(n)]
    for _ in range(k):
        R = [[lor(R[i][j], *[land(R[i][m], edge(A, directed, m, j)) for m in range(n) if m != j]) for j in range(n)] for i in range(n)]
    return R


def make(cx, n, directed, labels=None):
    labels = cx.choice('labels', LABELS[n]) if labels is None else labels
    A = adjacency(cx, n, directed)
    if cx.p.get('junk') and not directed:  # below the diagonal: not used by undirected graphs
        M = [[A[i][j] if i <= j else cx.bool('junk%d%d' % (i, j)) for j in range(n)] for i in range(n)]
    else:
        M = A
    g = QG.QubitGraph(labels, initial_connectivity=cx.array([x for r in M for x in r], (n, n), 'b'), directed=directed)
    return g, A, labels


GR = [dict(n=4, directed=False), dict(n=3, directed=True), dict(n=3, directed=False, junk=1), dict(n=2, directed=True), dict(n=1, directed=False)]
GRT = [dict(n=4, directed=True)]


def same(cx, g, A, directed, labels, what):
    n = len(labels)
    cx.check(g.get_node_names() == tuple(labels), what + ": nodes")
    ed = g.edges()
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            e = edge(A, directed, i, j)
            a, b = labels[i], labels[j]
            got = g.is_directly_connected(a, b)
            cx.check(e if got else lnot(e), what + ": direct connection")
            if directed or i < j:
                cx.check(((a, b) in ed or (not directed and (b, a) in ed)) == bool(got), what + ": edge list")
    m = sum(1 for i in range(n) for j in range(n) if i != j and (directed or i < j) and g.has_edge((labels[i], labels[j])))
    cx.check(len(ed) == m, what + ": no other edges")


@harness(params=GR, thorough_params=GRT, encodes=['QubitGraph.__init__', 'QubitGraph.edges', 'QubitGraph.is_directly_connected', 'QubitGraph.has_edge', 'QubitGraph.copy', 'QubitGraph.subgraph', 'QubitGraph.__getitem__'],
         bounds='all undirected graphs with up to 4 nodes, directed with up to 3 (thorough: 4)', **COMMON)
def structure(cx):
    n, directed = cx.p['n'], cx.p['directed']
    g, A, labels = make(cx, n, directed)
    same(cx, g, A, directed, labels, "graph")
    if n > 1:
        cx.check(sorted(map(tuple, g.edges(True))) == sorted(set(g.edges()) | (set() if directed else {(b, a) for a, b in g.edges()})), "doubled edges")
        cx.check(bool(g[labels[0], labels[1]]) == bool(g.has_edge((labels[0], labels[1]))), "item access")
    same(cx, g.copy(), A, directed, labels, "copy")
    if n >= 3:
        keep = cx.choice('keep', [[0, 2], [2, 0, 1], [1]])
        kl = [labels[i] for i in keep]
        s = g.subgraph(kl)
        r = g.subgraph(kl, reset_nodes=True)
        for h, names in ((s, kl), (r, list(range(len(keep))))):
            cx.check(h.get_node_names() == tuple(names) and h.directed == directed, "nodes of the subgraph")
            for x, i in enumerate(keep):
                for y, j in enumerate(keep):
                    if i != j:
                        e = edge(A, directed, i, j)
                        cx.check(e if h.is_directly_connected(names[x], names[y]) else lnot(e), "edges of the subgraph")


@harness(params=GR, thorough_params=GRT, encodes=['QubitGraph.radius', 'QubitGraph.are_glob_connected', 'QubitGraph.connected_combos'],
         bounds='as structure; up to 3 hops from 1-2 nodes; node sets of size 2-3', **COMMON)
def neighbourhoods(cx):
    n, directed = cx.p['n'], cx.p['directed']
    g, A, labels = make(cx, n, directed)
    k = cx.choice('k', list(range(min(n, 3) + 1)))
    base = cx.choice('base', [[0], [n - 1, 0]])
    R = reach(A, directed, k)
    got = g.radius([labels[i] for i in base], k)
    cx.check(list(got) == sorted(set(got)), "sorted nodes")
    for j in range(n):
        w = lor(*[R[i][j] for i in base])
        cx.check(w if labels[j] in got else lnot(w), "nodes within the radius")
    R = reach(A, directed, n - 1)
    combos = [c for size in (2, 3) for c in itertools.combinations(range(n), size)]
    for c in combos:
        w = land(*[R[i][j] for i in c for j in c])
        got = g.are_glob_connected([labels[i] for i in c])
        cx.check(w if got else lnot(w), "connected set")
    cx.check(g.are_glob_connected([labels[0]]) and not g.are_glob_connected([labels[0], 'nowhere']), "single and unknown nodes")
    if n >= 3:
        cnt = sum(1 for c in itertools.combinations(range(n), 2) if g.are_glob_connected([labels[i] for i in c]))
        cx.check(g.connected_combos(labels, 2) == cnt, "number of connected pairs")


@harness(params=GR, thorough_params=GRT, encodes=['QubitGraph.shortest_path', 'QubitGraph.shortest_path_distance', 'QubitGraph.is_connected', 'QubitGraph.shortest_path_edges', 'QubitGraph.shortest_path_intersect',
                                                  'QubitGraph.shortest_path_distance_matrix', 'QubitGraph._refresh_dists_and_predecessors'], bounds='as structure', **COMMON)
def paths(cx):
    n, directed = cx.p['n'], cx.p['directed']
    g, A, labels = make(cx, n, directed)
    old = QG._fw
    QG._fw = fw
    try:
        D = g.shortest_path_distance_matrix()
        cx.check_shape(D, (n, n), "distance matrix")
        Rs = [reach(A, directed, k) for k in range(n)]
        for i in range(n):
            for j in range(n):
                a, b = labels[i], labels[j]
                d = g.shortest_path_distance(a, b)
                cx.check(d == D[i, j], "distance matrix entry")
                if i == j:
                    cx.check(d == 0, "distance to itself")
                    continue
                conn = g.is_connected(a, b)
                cx.check(Rs[n - 1][i][j] if conn else lnot(Rs[n - 1][i][j]), "connected by some path")
                if not conn:
                    cx.check(d == float('inf'), "no path: infinite distance")
                    cx.check_raises(lambda: g.shortest_path(a, b), "no path", AssertionError)
                    continue
                d = int(d)
                cx.check(land(Rs[d][i][j], lnot(Rs[d - 1][i][j])), "distance is the number of hops")
                p = g.shortest_path(a, b)
                cx.check(p[0] == a and p[-1] == b and len(p) == d + 1, "shortest path joins the nodes")
                for x, y in zip(p[:-1], p[1:]):
                    cx.check(edge(A, directed, labels.index(x), labels.index(y)), "shortest path follows edges")
                cx.check(g.shortest_path_edges(a, b) == list(zip(p[:-1], p[1:])), "edges of the path")
                for m in range(n):
                    cx.check(g.shortest_path_intersect(a, b, [labels[m]]) == (labels[m] in p), "path intersection")
        # changing the graph changes the answers
        if n >= 2:
            a, b = labels[0], labels[1]
            g[a, b] = True
            cx.check(g.shortest_path_distance(a, b) == 1, "distance after adding an edge")
            g[a, b] = False
            cx.check(g.shortest_path_distance(a, b) != 1, "distance after removing an edge")
            g.add_edge(a, b)
            cx.check(g.shortest_path_distance(a, b) == 1, "distance after adding an edge (add_edge)")
            g.remove_edge(a, b)
            cx.check(g.shortest_path_distance(a, b) != 1, "distance after removing an edge (remove_edge)")
            g.add_edges([(a, b)])
            cx.check(g.shortest_path_distance(a, b) == 1 and g.copy().shortest_path_distance(a, b) == 1, "distance after adding edges")
    finally:
        QG._fw = old


@harness(params=[dict(n=3, directed=d) for d in (True, False)], encodes=['QubitGraph.add_edge', 'QubitGraph.remove_edge', 'QubitGraph.__setitem__', 'QubitGraph.add_edges'],
         bounds='any graph on 3 nodes followed by two edits (quick: first edit on one of two pairs)', **COMMON)
def editing(cx):
    n, directed = cx.p['n'], cx.p['directed']
    g, A, labels = make(cx, n, directed, LABELS[n][-1])
    A = [list(r) for r in A]
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    for step in range(2):
        i, j = cx.choice('pair%d' % step, pairs if step or cx.tier == 'thorough' else [(0, 1), (2, 1)])
        op = cx.choice('op%d' % step, ['add', 'remove', 'set', 'clear'])
        x, y = (i, j) if directed or i < j else (j, i)
        a, b = labels[i], labels[j]
        if op == 'add':
            g.add_edge(a, b)
            A[x][y] = True
        elif op == 'set':
            g[a, b] = True
            A[x][y] = True
        elif op == 'clear':
            g[a, b] = False
            A[x][y] = False
        else:
            if bool(A[x][y]):
                g.remove_edge(a, b)
                A[x][y] = False
            else:
                cx.check_raises(lambda: g.remove_edge(a, b), "removing an edge that is not there", AssertionError)
    same(cx, g, A, directed, labels, "after edits")
    cx.check_raises(lambda: g.add_edge(labels[0], labels[0]), "loop", AssertionError)


def off_by_one(row, k, labels):
    """known finding: move_in_direction compares the stored 1-based direction numbers (0 == no edge) with the 0-based index of the direction"""
    return next((labels[j] for j, x in enumerate(row) if x == k), None)


def known():
    g = QG.QubitGraph(['a', 'b'], initial_edges=[('a', 'b', 'right'), ('b', 'a', 'left')])
    if g.move_in_direction('a', 'right') != 'b' or g.move_in_direction('a', 'left') is not None:
        return ['QubitGraph.move_in_direction compares 1-based direction numbers with a 0-based index: it takes the step of the previous direction, or (first direction) '
                'goes to the first node without an edge']
    return []


META['known_findings_cb'] = known


@harness(params=[dict(how=h) for h in ('edges', 'matrix', 'set', 'empty')], encodes=['QubitGraph.move_in_direction', 'QubitGraph.move_in_directions', 'QubitGraph.resolve_relative_nodelabel', 'QubitGraph.__init__', 'QubitGraph.subgraph'],
         bounds='3 nodes, five ordered pairs, each without edge or with one of up to three directions', **COMMON)
def directions(cx):
    n, names = 3, ['up', 'left', 'right']
    labels = ['a', 'b', 'c']
    D = [[0] * n for _ in range(n)]
    for k, (i, j) in enumerate([(0, 1), (1, 0), (1, 2), (2, 1), (0, 2)]):
        D[i][j] = cx.choice('d%d' % k, [0, 1, 2, 3] if k in (0, 2) else [0, 2, 3] if k == 1 else [0, 2])
    how = cx.p['how']
    if how == 'edges':
        E = [(labels[i], labels[j], names[D[i][j] - 1]) for i in range(n) for j in range(n) if D[i][j]]
        g = QG.QubitGraph(labels, initial_edges=E, direction_names=names)
    elif how == 'matrix':
        g = QG.QubitGraph(labels, initial_connectivity=np.array(D, int), direction_names=names)
    else:
        g = QG.QubitGraph(labels, direction_names=names) if how == 'empty' else QG.QubitGraph(labels, initial_edges=[('a', 'c', 'up')], direction_names=names)
        for i in range(n):
            for j in range(n):
                if i != j:
                    if D[i][j]:
                        g[labels[i], labels[j]] = names[D[i][j] - 1] if cx.p['how'] == 'set' else D[i][j] - 1
                    else:
                        g[labels[i], labels[j]] = False

    def step(i, d):
        t = [j for j in range(n) if D[i][j] == names.index(d) + 1]
        return t
    for h in (g, g.copy(), g.subgraph(labels)):
        for i in range(n):
            for j in range(n):
                if i != j:
                    cx.check(bool(h.is_directly_connected(labels[i], labels[j])) == bool(D[i][j]), "edges")
            for d in names:
                t = step(i, d)
                got = h.move_in_direction(labels[i], d)
                ok = (got in [labels[x] for x in t]) if t else got is None
                cx.check(ok or got == off_by_one(D[i], names.index(d), labels), "one step in a direction")
                cx.check(h.move_in_direction(labels[i], names.index(d)) == got, "direction by index")
        cx.check(h.move_in_directions('a', []) == 'a' and h.resolve_relative_nodelabel('b', ['c']) == 'b' and h.resolve_relative_nodelabel('@1', ['c', 'a']) == 'a', "no step")
        m = h.move_in_direction('c', 'left')
        m2 = None if m is None else h.move_in_direction(m, 'up')
        cx.check(h.resolve_relative_nodelabel('@0+left+up', ['c', 'a']) == m2, "relative label")
    G = [[bool(x) for x in r] for r in D]
    d = g.shortest_path_distance('a', 'c')
    k = next((k for k in range(3) if reach(G, True, k)[0][2]), None)
    cx.check(d == (k if k is not None else float('inf')), "distance counts hops, not direction numbers")


@harness(encodes=['QubitGraph.common_graph'], bounds='line and ring up to 5, grid and torus 2x2 and 3x3, all options', **COMMON)
def common(cx):
    geo, n = cx.choice('geo', [(g, n) for g in ('line', 'ring') for n in range(6)] + [(g, n) for g in ('grid', 'torus') for n in (4, 9)])
    directed, alld = cx.choice('directed', [True, False]), cx.choice('all', [True, False])
    ql = cx.choice('ql', [None, ['Q%d' % (7 - i) for i in range(n)]])
    g = QG.QubitGraph.common_graph(n, geo, directed, ql, alld)
    L = list(range(n)) if ql is None else ql
    s = n if geo in ('line', 'ring') else {4: 2, 9: 3}[n]
    wrap = geo in ('ring', 'torus') and s > 2
    want = {}
    for i in range(n):
        r, c = (0, i) if geo in ('line', 'ring') else divmod(i, s)
        if c + 1 < s or wrap:
            j = r * s + (c + 1) % s
            want[(i, j)] = 'right'
            if alld:
                want[(j, i)] = 'left'
        if geo in ('grid', 'torus') and (r + 1 < s or wrap):
            j = ((r + 1) % s) * s + c
            want[(i, j)] = 'down'
            if alld:
                want[(j, i)] = 'up'
    for i in range(n):
        for j in range(n):
            if i != j:
                w = (i, j) in want or (not directed and (j, i) in want)
                cx.check(bool(g.is_directly_connected(L[i], L[j])) == w, "edge of the %s" % geo)
    if directed and want:
        for (i, j), d in want.items():
            dirs = sorted(set(want.values()))
            k = dirs.index(d)
            row = [dirs.index(want[i, q]) + 1 if (i, q) in want else 0 for q in range(n)]
            got = g.move_in_direction(L[i], d)
            cx.check(g.directions == dirs, "directions of the %s" % geo)
            cx.check(got == L[j] or got == off_by_one(row, k, L), "direction in the %s" % geo)


class SSL:
    def __init__(self, labels):
        self.labels = (tuple(labels),)


class Model:
    def __init__(self, labels, ops):
        self.state_space_labels, self.ops, self.dim = SSL(labels), ops, 4**len(labels)
        self.dim = 2**len(labels)

    def get_primitive_op_labels(self):
        return self.ops


@harness(params=[dict(n=4, directed=False), dict(n=3, directed=True)], thorough_params=[dict(n=5, directed=False)], encodes=['ProcessorSpec.get_all_connected_sets', 'ProcessorSpec.get_all_connected_sets_new', 'ProcessorSpec.get_edges'],
         bounds='any symmetric connectivity on 4 qubits / any directed on 3', **COMMON)
def connected_sets(cx):
    n, directed = cx.p['n'], cx.p['directed']
    LABELS.setdefault(5, [[0, 1, 2, 3, 4]])
    labels = LABELS[n][0]
    A = adjacency(cx, n, directed)
    ops = [Label('Gx', (q,)) for q in labels]
    for i in range(n):
        for j in range(n):
            if i != j and (directed or i < j) and bool(A[i][j]):
                ops.append(Label('Gcnot', (labels[i], labels[j])))
    ps = PS.ProcessorSpec.__new__(PS.ProcessorSpec)
    ps.number_of_qubits, ps.qubit_labels = n, list(labels)
    ps.models = {'clifford': Model(labels, ops)}
    C = np.zeros((n, n), dtype=bool)
    full = [[edge(A, directed, i, j) if i != j else False for j in range(n)] for i in range(n)]
    ps.qubitgraph = QG.QubitGraph(labels, cx.array([lor(full[i][j], full[j][i]) for i in range(n) for j in range(n)], (n, n), 'b'))  # (as ProcessorSpec.__init__ builds it)
    new = ps.get_all_connected_sets_new()
    for k in range(1, n + 1):
        old = ps.get_all_connected_sets(k)
        cx.check(len(set(old)) == len(old), "each set once")
        cx.check(len(set(new[k])) == len(new[k]), "each set once (all sizes)")
        for S in itertools.combinations(range(n), k):
            R = [[i == j for j in S] for i in S]
            for _ in range(k):
                R = [[lor(R[x][y], *[land(R[x][m], lor(full[S[m]][S[y]], full[S[y]][S[m]])) for m in range(k)]) for y in range(k)] for x in range(k)]
            w = land(*[x for r in R for x in r])
            T = tuple(labels[i] for i in S)
            cx.check(w if T in old else lnot(w), "connected sets of %d qubits" % k)
            if k > 1 or any(bool(full[S[0]][j]) or bool(full[j][S[0]]) for j in range(n)):
                cx.check(w if tuple(sorted(T)) in new[k] else lnot(w), "connected sets of all sizes")
    qs = cx.choice('qs', [labels, labels[:2], labels[1:]])
    cx.check(sorted(ps.get_edges(qs)) == sorted(l.qubits for l in ops if l.number_of_qubits == 2 and set(l.qubits) <= set(qs)), "edges among given qubits")


@harness(params=[dict(n=3), dict(n=4)], thorough_params=[dict(n=5)], encodes=['CompilationLibrary.construct_nonlocal_compilation_of', 'CompilationLibrary.filter_connectivity', 'CompilationLibrary.compute_connectivity_of',
                                                     'CompilationLibrary.get_nonlocal_compilation_of', 'CompilationLibrary.add_nonlocal_compilation_of'],
         bounds='any CNOT connectivity (undirected) on 3-4 (thorough: 5) qubits, optional filters; CNOT action on symbolic bits', **COMMON)
def nonlocal_cnot(cx):
    n = cx.p['n']
    LABELS.setdefault(5, [[0, 1, 2, 3, 4]])
    labels = LABELS[n][-1]
    A = adjacency(cx, n, False)
    lib = CL.CompilationLibrary(Model(labels, []), 'paulieq')
    E = [[False] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            if bool(A[i][j]):
                E[i][j] = E[j][i] = True
                for x, y in ((i, j), (j, i)):
                    lib[Label('CNOT', (labels[x], labels[y]))] = Circuit([Label('Gcnot', (labels[x], labels[y]))], line_labels=tuple(labels))
    a, b = labels[0], labels[n - 1]
    filt = cx.choice('filter', [None, 'set', 'dict'])
    if filt is None:
        allowed, F, keep = None, E, list(range(n))
    elif filt == 'set':
        keep = [0] + list(range(2, n))
        allowed, F = set(labels[i] for i in keep), E
    else:
        keep = list(range(n))
        g = QG.QubitGraph(labels, initial_edges=[(labels[i], labels[i + 1]) for i in range(n - 1)], directed=False)
        allowed, F = {'CNOT': g}, [[E[i][j] and abs(i - j) == 1 for j in range(n)] for i in range(n)]
    old = QG._fw
    QG._fw = fw
    try:
        _nonlocal(cx, n, labels, lib, E, F, keep, allowed, filt)
    finally:
        QG._fw = old


def _nonlocal(cx, n, labels, lib, E, F, keep, allowed, filt):
    a, b = labels[0], labels[n - 1]
    G = lib.filter_connectivity('CNOT', allowed)
    for i in keep:
        for j in keep:
            if i != j:
                cx.check(bool(G.is_directly_connected(labels[i], labels[j])) == F[i][j], "allowed connectivity")
    R = [[F[i][j] if i in keep and j in keep else False for j in range(n)] for i in range(n)]
    dist = next((k for k in range(1, n) if reach(R, True, k)[0][n - 1]), None)
    lab = Label('CNOT', (a, b))
    if dist is None:
        cx.check_raises(lambda: lib.get_nonlocal_compilation_of(lab, allowed_filter=allowed, verbosity=0, check=False, force=True), "no path", AssertionError)
        return
    if dist == 1:
        return
    lib.pop(lab, None)
    if lab in lib or E[0][n - 1]:
        return
    c = lib.get_nonlocal_compilation_of(lab, allowed_filter=allowed, verbosity=0, check=False)
    x, z = cx.bits('x', n), cx.bits('z', n)
    X, Z = list(x), list(z)
    for l in c:
        for o in l.components:
            i, j = labels.index(o.qubits[0]), labels.index(o.qubits[1])
            cx.check(o.name == 'Gcnot' and F[i][j] and i in keep and j in keep, "only available gates")
            X[j] = X[j] ^ X[i]
            Z[i] = Z[i] ^ Z[j]
    for i in range(n):
        cx.check(X[i] == (x[i] ^ x[0] if i == n - 1 else x[i]), "compiled CNOT acts as a CNOT (bits)")
        cx.check(Z[i] == (z[i] ^ z[n - 1] if i == 0 else z[i]), "compiled CNOT acts as a CNOT (phases)")
    lib.add_nonlocal_compilation_of(lab, allowed_filter=allowed if filt != 'dict' else None, verbosity=0, check=False)
    if filt != 'dict':
        c2 = lib.get_nonlocal_compilation_of(lab, allowed_filter=allowed, verbosity=0, check=False)
        cx.check(c2 == c, "stored compilation is found again")
