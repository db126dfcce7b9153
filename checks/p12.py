"""P12: evaluation trees compute every requested circuit exactly once (objects/evaltree, matrixevaltree, mapevaltree; tools/slicetools)."""
import collections
import itertools
import numpy as np
from symex.harness import harness, land, lor, lnot
from pygsti.objects.matrixevaltree import MatrixEvalTree
from pygsti.objects.mapevaltree import MapEvalTree
from pygsti.tools import slicetools as SL

MODS = []
META = {'assumptions': ['circuits are tuples of a preparation label and symbolic gate letters (as OpModel.simplify_circuits produces them); the tree code is executed with symbolic letters and '
                        'forks only on the comparisons it makes']}
COMMON = dict(modules=MODS, limit=600, kinds='')

POVMS = {'A': ['A_0', 'A_1'], 'B': ['B_0'], 'C': ['A_1', 'B_0', 'C_0']}


def request(cx, shape, alphabet):
    """list of (prep, letters, effect labels): `shape` gives for each circuit prep, length and measurement; later circuits may repeat earlier ones only if distinct (dictionary keys)"""
    out, k = [], 0
    for pr, L, m in shape:
        out.append((pr, tuple(cx.bv('g%d' % (k + i), 0, alphabet - 1) for i in range(L)), POVMS[m] if m else [None]))
        k += L
    for a, b in itertools.combinations(out, 2):
        if a[0] == b[0] and len(a[1]) == len(b[1]):
            cx.assume(lor(*[x != y for x, y in zip(a[1], b[1])]) if a[1] else False)
    return out


def build(cls, req, **k):
    d = collections.OrderedDict()
    for pr, c, el in req:
        d[((pr,) + c) if pr else c] = list(el)
    t = cls()
    t.initialize(d, **k)
    return t


def elements(req):
    return [(i, el) for i, (_, _, els) in enumerate(req) for el in els]


def matrix_items(cx, t, msg):
    """what each item of a matrix tree holds, computing in its stated order from gates only"""
    val = [None] * len(t)
    for i, l in zip(t.get_init_indices(), t.get_init_labels()):
        cx.check(val[i] is None, msg + ": item initialised once")
        val[i] = () if isinstance(l, str) else (l,)
    for i in t.get_evaluation_order():
        right, left = t[i]          # product = left . right in matrix order, so `right` comes first in time
        cx.check(val[right] is not None and val[left] is not None, msg + ": operands computed before use")
        cx.check(val[i] is None, msg + ": item computed once")
        val[i] = val[right] + val[left]
    for i in range(t.num_final_strings()):
        cx.check(val[i] is not None, msg + ": requested item computed")
    return val


def map_items(cx, t, msg):
    val, cache = [None] * len(t), [None] * t.cache_size()
    for i in t.get_evaluation_order():
        st, rem, ic = t[i]
        cx.check(val[i] is None, msg + ": item computed once")
        if st is None:
            val[i] = tuple(rem)
        else:
            cx.check(cache[st] is not None, msg + ": cached state available before use")
            val[i] = cache[st] + tuple(rem)
        if ic is not None: cache[ic] = val[i]
    for i in range(t.num_final_strings()):
        cx.check(val[i] is not None, msg + ": requested item computed")
    return val


def eq(cx, a, b, msg):
    cx.check(len(a) == len(b), msg + ": length")
    cx.check(land(*[x == y for x, y in zip(a, b)]) if a else True, msg)


def sl(s, n):
    if isinstance(s, slice): return list(range(*s.indices(n)))
    return [int(x) for x in s]


def check_tree(cx, t, want, msg, nel_parent=None, elmap=None):
    """`want`: for each final item (prep, letters, effects).  Element k of the tree goes to place elmap[k] of the result."""
    matrix = isinstance(t, MatrixEvalTree)
    val = (matrix_items if matrix else map_items)(cx, t, msg)
    cx.check(t.num_final_strings() == len(want), msg + ": number of circuits")
    nel = sum(len(w[2]) for w in want)
    cx.check(t.num_final_elements() == nel, msg + ": number of elements")
    for i, (pr, c, els) in enumerate(want):
        got = val[i]
        if not matrix and pr:
            cx.check(got[0] == pr, msg + ": preparation of circuit %d" % i)
            got = got[1:]
        eq(cx, got, c, msg + ": gate sequence of circuit %d" % i)
    els = [(i, el) for i, w in enumerate(want) for el in w[2]]
    place = elmap if elmap is not None else list(range(nel))
    seen = {}
    if matrix:
        for stup, (f, g) in t.spamtuple_indices.items():
            f, g = sl(f, nel_parent if nel_parent is not None else nel), sl(g, len(want))
            cx.check(len(f) == len(g), msg + ": one circuit per element")
            for a, b in zip(f, g):
                cx.check(a not in seen, msg + ": element filled once")
                seen[a] = (b, want[b][0], stup)
        exp = {place[k]: (i, want[i][0], (want[i][0], el) if el is not None else None) for k, (i, el) in enumerate(els)}
    else:
        for i in range(len(want)):
            for a, b in zip(t.final_indices_per_circuit.get(i, []), t.eLbl_indices_per_circuit.get(i, [])):
                cx.check(place[a] not in seen, msg + ": element filled once")
                seen[place[a]] = (i, want[i][0], t.elabels[b])
        exp = {place[k]: (i, want[i][0], el) for k, (i, el) in enumerate(els)}
        for i in range(len(t)):
            rem = t[i][1]
            gates = rem[1:] if t[i][0] is None and want[0][0] else rem
            for x in gates: cx.check(lor(*[x == y for y in t.opLabels]), msg + ": every gate used is listed")
        for w in want:
            if w[0]: cx.check(w[0] in t.rholabels, msg + ": every preparation is listed")
    cx.check(seen.keys() == exp.keys(), msg + ": every element is filled")
    for k in exp:
        cx.check(seen.get(k) == exp[k] or exp[k][2] is None, msg + ": element %d belongs to its circuit and effect" % k)


R = 'rho0'
S = 'rho1'
SHAPES = {'s': [(R, 3, 'A')], 'e': [(R, 0, 'A'), (R, 1, 'A'), (R, 2, 'A')], 'e2': [(R, 2, 'A'), (R, 0, 'B'), (R, 3, 'A')], 'p': [(R, 2, 'A'), (R, 4, 'B'), (R, 1, 'A')], 'q': [(R, 3, 'B'), (R, 3, 'A')],
          'pp': [(R, 2, 'A'), (S, 2, 'A'), (R, 3, 'C')], 'pe': [(S, 0, 'A'), (R, 0, 'A'), (R, 2, 'A'), (S, 1, 'B')], 'm': [(R, 2, 'C'), (R, 1, 'B'), (R, 2, 'A')], 'n': [(None, 2, None), (None, 3, None), (None, 0, None)],
          'l': [(R, 5, 'A'), (R, 2, 'B')], 'd': [(R, 1, 'A'), (R, 2, 'A'), (R, 2, 'A'), (R, 1, 'B')]}
DEEP = {'x': [(R, 3, 'A'), (R, 3, 'B'), (R, 2, 'A')], 'y': [(R, 6, 'A'), (R, 3, 'A')], 'z': [(R, 2, 'A'), (S, 3, 'C'), (S, 2, 'A'), (R, 1, 'A')], 'w': [(R, 1, 'A'), (R, 2, 'B'), (R, 3, 'A'), (R, 3, 'C')]}
SHAPES.update(DEEP)
CLS = {'matrix': MatrixEvalTree, 'map': MapEvalTree}


def variants(cls): return [dict(t='matrix', cache=None)] + [dict(t='map', cache=c) for c in (None, 0, 1)]


@harness(params=[dict(v, shape=s) for v in variants(0) for s in SHAPES if s not in DEEP], thorough_params=[dict(v, shape=s) for v in variants(0) for s in DEEP], logic='QF_FD',
         encodes=['MatrixEvalTree.initialize', 'MatrixEvalTree.generate_circuit_list', 'MatrixEvalTree.copy', '_compute_spamtuple_indices', 'MapEvalTree.initialize', 'MapEvalTree._build_elabels_lookups',
                  'MapEvalTree.generate_circuit_list', 'MapEvalTree.copy', 'EvalTree._get_opLabels', 'EvalTree.final_view', 'slicetools.list_to_slice'],
         bounds='all lists of up to four circuits of the given lengths (up to 5 gates) over two gate letters, one or two preparations, one to three effects per circuit; cache sizes 0, 1, unlimited', **COMMON)
def tree(cx):
    """every requested circuit is computed, in order, from operands available by then; every element belongs to its circuit and effect"""
    req = request(cx, SHAPES[cx.p['shape']], 2)
    k = {} if cx.p['t'] == 'matrix' else dict(maxCacheSize=cx.p['cache'])
    t = build(CLS[cx.p['t']], req, **k)
    check_tree(cx, t, req, "tree")
    got = t.generate_circuit_list()
    cx.check(len(got) == len(req), "listed circuits")
    for g, (pr, c, _) in zip(got, req):
        eq(cx, g[1:] if cx.p['t'] == 'map' and pr else g, c, "listed circuit")
    if cx.p['cache'] is not None: cx.check(t.cache_size() <= cx.p['cache'], "cache size limit")
    cp = t.copy()
    check_tree(cx, cp, req, "copy")
    if cx.p['t'] == 'map':
        sz = t.cache_size()
        for m in range(sz, -1, -1):
            cp.squeeze(m)
            cx.check(cp.cache_size() <= m, "squeezed cache size")
            check_tree(cx, cp, req, "squeezed tree")
        check_tree(cx, t, req, "original after squeezing the copy")
        cp2 = t.copy()
        cp2.squeeze(0)
        check_tree(cx, cp2, req, "tree squeezed to no cache")
        cp3 = t.copy()
        cp3.trim_nonfinal_els()
        check_tree(cx, cp3, req, "trimmed tree")


def split_params(shapes):
    out = []
    for v in variants(0):
        for s in shapes:
            if SHAPES[s][0][0] is None: continue
            for n in (2, 3): out.append(dict(v, shape=s, n=n, size=None))
            for z in ((5, 7) if v['t'] == 'matrix' else (1, 2)): out.append(dict(v, shape=s, n=None, size=z))
    return out


SSH = ['e', 'p', 'pp', 'm', 'd']


@harness(params=split_params(SSH), thorough_params=split_params(['x', 'w', 'z', 'e2', 'pe', 'q']), logic='QF_FD',
         encodes=['MatrixEvalTree.split', 'MatrixEvalTree._createSingleItemTrees', 'MapEvalTree.split', 'MapEvalTree.trim_nonfinal_els', 'MapEvalTree._delete_els', 'MapEvalTree._remove_from_cache', 'EvalTree._finish_split',
                  'EvalTree._permute_simplified_circuit_Xs', 'EvalTree.permute_original_to_computation', 'EvalTree.permute_computation_to_original', 'EvalTree.final_slice', 'EvalTree.final_element_indices'],
         bounds='as tree; two or three sub-trees or sub-tree sizes 5, 7 (matrix) and 1, 2 (map); circuits of one to three elements, plus one request owning the elements of two circuits (an instrument)', **COMMON)
def split(cx):
    """after splitting, sub-trees together compute each final element once, at the position the maps say; no element is lost or mislabelled"""
    req = request(cx, SHAPES[cx.p['shape']], 2)
    k = {} if cx.p['t'] == 'matrix' else dict(maxCacheSize=cx.p['cache'])
    t = build(CLS[cx.p['t']], req, **k)
    # requests: each circuit owns its elements; one more request owns the elements of the first and the last circuit (as an instrument's does)
    off, els = [], elements(req)
    for i in range(len(req)): off.append([j for j, e in enumerate(els) if e[0] == i])
    owns = collections.OrderedDict((i, slice(o[0], o[-1] + 1)) for i, o in enumerate(off))
    owns['inst'] = np.array(off[0] + off[-1])
    if cx.p['size'] is not None and cx.p['t'] == 'matrix' and t.get_min_tree_size() > cx.p['size']:
        cx.check_raises(lambda: t.split(owns, cx.p['size'], None), "a too small size is refused", ValueError)
        return
    upd = t.split(owns, cx.p['size'], cx.p['n'])
    if not t.is_split():
        cx.check(cx.p['size'] is not None and len(t) <= cx.p['size'], "a tree is left whole only if it is small enough")
        check_tree(cx, t, req, "unsplit tree")
        return
    subs = t.get_sub_trees()
    if cx.p['n'] is not None: cx.check(len(subs) == cx.p['n'], "number of sub-trees")
    elif cx.p['t'] == 'matrix': cx.check(all(len(s) <= cx.p['size'] for s in subs), "sub-tree size limit")
    # order of the circuits after splitting
    look = t.original_index_lookup
    n = len(req)
    cx.check(sorted(look[i] for i in range(n)) == list(range(n)), "the new order is a permutation of the circuits")
    new = [None] * n
    for i in range(n): new[look[i]] = req[i]
    check_tree(cx, t, new, "parent tree after splitting")
    nel = len(els)
    newels = [(w, el) for w in new for el in w[2]]
    # request -> elements
    cx.check(list(upd.keys()) == list(owns.keys()), "requests kept")
    for ky, o in owns.items():
        got, old = sl(upd[ky], nel), sl(o, nel)
        cx.check(len(got) == len(old), "number of elements of a request")
        for a, b in zip(got, old):
            cx.check(newels[a][0] is req[els[b][0]] and newels[a][1] == els[b][1], "element of request %s" % ky)
    for g, (pr, c, _) in zip(t.generate_circuit_list(), req):
        eq(cx, g[1:] if cx.p['t'] == 'map' else g, c, "circuits listed in the original order")
    for g, (pr, c, _) in zip(t.generate_circuit_list(permute=False), new):
        eq(cx, g[1:] if cx.p['t'] == 'map' else g, c, "circuits listed in computation order")
    a = np.arange(10, 10 + n)
    comp = t.permute_original_to_computation(a)
    cx.check([int(comp[look[i]]) for i in range(n)] == list(a), "permuting to computation order")
    cx.check(list(t.permute_computation_to_original(comp)) == list(a), "permuting back")
    # sub-trees
    done, doneel = [], []
    for s in subs:
        fs, fe = sl(s.final_slice(t), n), sl(s.final_element_indices(t), nel)
        want = [new[i] for i in fs]
        cx.check([newels[e][0] for e in fe] == [w for w in want for _ in w[2]], "elements of a sub-tree are those of its circuits")
        if want: check_tree(cx, s, want, "sub-tree", nel, fe)
        else: cx.check(s.num_final_elements() == 0, "empty sub-tree")
        done += fs
        doneel += fe
    cx.check(sorted(done) == list(range(n)), "every circuit is final in exactly one sub-tree")
    cx.check(sorted(doneel) == list(range(nel)), "every element is final in exactly one sub-tree")
    cp = t.copy()
    check_tree(cx, cp, new, "copy of a split tree")
    cx.check(len(cp.get_sub_trees()) == len(subs), "copied sub-trees")


@harness(params=[dict(n=n) for n in (0, 1, 2, 3, 4)], logic='QF_FD', encodes=['slicetools.list_to_slice', 'slicetools.indices', 'slicetools.length', 'slicetools.shift', 'slicetools.intersect', 'slicetools.divide', 'slicetools.as_array'],
         bounds='all lists of up to four distinct indices in 0..6; all slices with start, stop in 0..6', modules=['pygsti.tools.slicetools'], limit=300, kinds='i')
def slices(cx):
    """converting between index lists and slices keeps the indices; length, shift, intersection and division of slices are those of the index sets"""
    n = cx.p['n']
    a = cx.bits('b', 0) or [cx.choice('i%d' % i, list(range(7))) for i in range(n)]
    cx.assume(len(set(a)) == n)
    if n == 0: cx.one(cx.bit('b'))
    s = SL.list_to_slice(a, array_ok=True)
    cx.check((SL.indices(s) if isinstance(s, slice) else [int(x) for x in s]) == a, "list to slice or array and back")
    cx.check(SL.length(s) == n, "length")
    if n and a == list(range(a[0], a[0] + n)): cx.check(isinstance(s, slice), "a contiguous list becomes a slice")
    s2 = SL.list_to_slice(a, array_ok=True, require_contiguous=False)
    big = list(range(10, 20))
    cx.check(([big[s2]] if False else (big[s2] if isinstance(s2, slice) else [big[int(x)] for x in s2])) == [big[x] for x in a], "indexing with the slice selects the listed items")
    if not isinstance(s, slice): cx.check_raises(lambda: SL.list_to_slice(a), "a list that is no slice is refused", ValueError)
    if n == 2:
        st, sp = sorted(a)
        sc = slice(st, sp)
        w = list(range(st, sp))
        cx.check(SL.indices(sc) == w and SL.length(sc) == len(w), "indices of a slice")
        cx.check(SL.indices(SL.shift(sc, 3)) == [x + 3 for x in w], "shift")
        cx.check([int(x) for x in SL.as_array(sc)] == w, "as array")
        m = cx.choice('m', [1, 2, 3])
        parts = SL.divide(sc, m)
        cx.check(sum([SL.indices(p) for p in parts], []) == w and all(SL.length(p) <= m for p in parts), "divide")
    if n == 4:
        cx.assume(a[0] < a[1] and a[2] < a[3])
        x, y = slice(a[0], a[1]), slice(a[2], a[3])
        cx.check(SL.indices(SL.intersect(x, y)) == [i for i in range(7) if a[0] <= i < a[1] and a[2] <= i < a[3]], "intersection")
