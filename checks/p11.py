"""P11: list helpers (tools/listtools)."""
import itertools
import math
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti.tools import listtools as lt

LOGIC = 'QF_FD'
MODS = ['pygsti.tools.listtools']
META = {'assumptions': ['list elements are drawn from a 4-letter alphabet; lists of at most 5 elements']}
AB = ['a', 'b', 'c', 'd']


def iff(a, b):
    return land(limplies(a, b), limplies(b, a))


def first(L, i):
    """L[i] does not occur earlier"""
    return land(*[L[i] != L[j] for j in range(i)]) if i else True


@harness(params=[{'n': n, 'ix': ix} for n in (0, 1, 2, 3, 4, 5) for ix in (None, 0, 1)], modules=MODS, logic=LOGIC,
         encodes=['listtools.remove_duplicates', 'listtools.remove_duplicates_in_place'], bounds='all lists of <=5 elements over 4 letters')
def dedup(cx):
    n, ix = cx.p['n'], cx.p['ix']
    keys = [cx.fd('l%d' % i, AB) for i in range(n)]
    L = keys if ix is None else [((k, i) if ix == 0 else (i, k)) for i, k in enumerate(keys)]
    want_n = 0
    for i in range(n):
        want_n = want_n + ite(first(keys, i), 1, 0)
    r = lt.remove_duplicates(list(L), ix)
    l2 = list(L)
    lt.remove_duplicates_in_place(l2, ix)
    for nm, R in (('remove_duplicates', r), ('remove_duplicates_in_place', l2)):
        cx.check(want_n == len(R), nm + ": wrong number of elements left")
        # R is the subsequence of first occurrences
        pos = 0
        for i in range(n):
            if first(keys, i):
                cx.check(R[pos] is L[i] or bool(R[pos] == L[i]), nm + ": not the first occurrences in order")
                pos += 1


@harness(params=[{'n': n} for n in (0, 1, 2, 3, 4, 5)], modules=MODS, logic=LOGIC, encodes=['listtools.compute_occurrence_indices'], bounds='all lists of <=5 elements over 4 letters')
def occurrence(cx):
    n = cx.p['n']
    L = [cx.fd('l%d' % i, AB) for i in range(n)]
    r = lt.compute_occurrence_indices(L)
    cx.check(len(r) == n, "one index per element")
    for i in range(n):
        t = 0
        for j in range(i):
            t = t + ite(L[i] == L[j], 1, 0)
        cx.check(t == r[i], "occurrence index is not the number of earlier equal elements")


@harness(params=[{'n': n, 'e': e} for n in (0, 1, 2, 3, 4) for e in (0, 1, 2)], modules=MODS, logic=LOGIC, encodes=['listtools.find_replace_tuple', 'listtools.find_replace_tuple_list'],
         bounds='tuples of <=4 letters, alias expansions of 0..2 letters')
def aliases(cx):
    n, e = cx.p['n'], cx.p['e']
    t = tuple(cx.fd('l%d' % i, ['A', 'B', 'c', 'd']) for i in range(n))
    exp = {'A': tuple(cx.fd('x%d' % i, ['c', 'd', 'A']) for i in range(e)), 'B': tuple(cx.fd('y%d' % i, ['c', 'd', 'e']) for i in range(2))}
    r = lt.find_replace_tuple(t, exp)
    want = []
    for x in t:
        if x == 'A':
            want.extend(exp['A'])
        elif x == 'B':
            want.extend(exp['B'])
        else:
            want.append(x)
    cx.check(len(r) == len(want), "expanded length")
    cx.check(land(*[a == b for a, b in zip(r, want)]), "expanded tuple")
    r2 = lt.find_replace_tuple_list([t, t], exp)
    cx.check(len(r2) == 2 and r2[0] == r and r2[1] == r, "list version")
    cx.check(lt.find_replace_tuple(t, None) == t, "no aliases")


def all_partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        return [()]
    return [(k,) + r for k in range(min(n, m), 0, -1) for r in all_partitions(n - k, k)]


@harness(params=[{'n': n} for n in range(0, 13)], thorough_params=[{'n': n} for n in range(13, 19)], modules=[], logic=LOGIC, encodes=['listtools.sorted_partitions', 'listtools.partitions', 'listtools.partition_into'],
         bounds='n<=12 (18 in the thorough tier), compositions n<=6, bins<=4; membership of a symbolic candidate')
def partitions(cx):
    n = cx.p['n']
    got = [tuple(int(x) for x in p) for p in (q.copy() for q in lt.sorted_partitions(n))]
    # every candidate non-increasing positive tuple summing to n must appear exactly once
    for k in range(0, n + 1):
        c = [cx.bv('c%d_%d' % (k, i), 1, max(n, 1)) for i in range(k)]
        s = 0
        for x in c:
            s = s + x
        valid = land(*[a >= b for a, b in zip(c, c[1:])], (s == n) if k else n == 0)
        cnt = 0
        for p in got:
            if len(p) == k:
                cnt = cnt + ite(land(*[a == b for a, b in zip(c, p)]) if k else True, 1, 0)
        cx.check(cnt == ite(valid, 1, 0), "sorted_partitions is not the set of partitions")
    if 0 < n <= 6:
        got2 = [tuple(int(x) for x in p) for p in lt.partitions(n)]
        for k in range(1, n + 1):
            c = [cx.bv('d%d_%d' % (k, i), 1, n) for i in range(k)]
            s = 0
            for x in c:
                s = s + x
            cnt = 0
            for p in got2:
                if len(p) == k:
                    cnt = cnt + ite(land(*[a == b for a, b in zip(c, p)]), 1, 0)
            cx.check(cnt == ite(s == n, 1, 0), "partitions is not the set of compositions")
    if n <= 5:
        for b in (1, 2, 3, 4):
            got3 = [tuple(int(x) for x in p) for p in lt.partition_into(n, b)]
            c = [cx.bv('e%d_%d' % (b, i), 0, n) for i in range(b)]
            s = 0
            for x in c:
                s = s + x
            cnt = 0
            for p in got3:
                cx.check(len(p) == b, "number of bins")
                cnt = cnt + ite(land(*[x == y for x, y in zip(c, p)]), 1, 0)
            cx.check(cnt == ite(s == n, 1, 0), "partition_into is not the set of distributions over the bins")


@harness(params=[{'a': a, 'b': b, 'c': c} for a in (0, 1, 2) for b in (1, 2) for c in (0, 1, 3)], modules=MODS, logic=LOGIC,
         encodes=['listtools.incd_product'], bounds='products of 3 lists of <=3 symbolic letters')
def incd(cx):
    A = [[cx.fd('%s%d' % (nm, i), AB) for i in range(cx.p[nm])] for nm in ('a', 'b', 'c')]
    got = list(lt.incd_product(*A))
    want = list(itertools.product(*A))
    if not want:
        cx.check(all(t == () for _, t in got), "empty product")
        return
    cx.check(len(got) == len(want), "number of elements")
    prev = None
    idx = list(itertools.product(*[range(len(x)) for x in A]))
    for (inc, t), w, ix in zip(got, want, idx):
        cx.check(len(t) == 3 and all(x is y for x, y in zip(t, w)), "order of the product")
        d = 0 if prev is None else min(k for k in range(3) if ix[k] != prev[k])
        cx.check(inc == d, "first changed position")
        prev = ix
