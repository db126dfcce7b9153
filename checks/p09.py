"""P09: slice utilities denote the index sets of Python slicing (tools/slicetools)."""
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti.tools import slicetools as slct

LOGIC = 'QF_FD'
MODS = [('pygsti.tools.slicetools', RANGE)]
META = {'assumptions': ['slice bounds and list entries lie in the stated small ranges; steps in -3..3']}
STEPS = [None, 1, 2, 3, -1, -2]
B = 7


def member(x, start, stop, step, lo_none=True):
    """x in the (ascending or descending) arithmetic progression; None = unbounded"""
    st = 1 if step is None else step
    c = []
    if st > 0:
        if start is not None:
            c.append(x >= start)
        if stop is not None:
            c.append(x < stop)
    else:
        if start is not None:
            c.append(x <= start)
        if stop is not None:
            c.append(x > stop)
    if abs(st) > 1:
        c.append((x - (start if start is not None else 0)) % abs(st) == 0)
    return land(*c) if c else True


def count(lst):
    t = 0
    for c in lst:
        t = t + ite(c, 1, 0)
    return t


def iff(a, b):
    return land(limplies(a, b), limplies(b, a))


def in_list(x, L):
    return lor(*[x == y for y in L]) if len(L) else False


@harness(params=[{'step': s} for s in STEPS], modules=MODS, logic=LOGIC, encodes=['slicetools.length', 'slicetools.indices', 'slicetools.as_array'],
         bounds='start, stop in 0..7, every listed step')
def length_indices(cx):
    step = cx.p['step']
    a, b = cx.bv('a', 0, B), cx.bv('b', 0, B)
    s = slice(a, b, step)
    n = slct.length(s)
    cx.check(n == count([member(x, a, b, step) for x in range(-1, B + 2)]), "length() is not the number of indices")
    for nm, L in (('indices', slct.indices(s)), ('as_array', list(slct.as_array(s)))):
        x = cx.bv('x' + nm, -1, B + 1)
        cx.check(len(L) == n, nm + " has the wrong number of entries")
        cx.check(iff(in_list(x, L), member(x, a, b, step)), nm + " is not the index set of the slice")
        sgn = 1 if step is None or step > 0 else -1
        for p, q in zip(L, L[1:]):
            cx.check(sgn * (q - p) > 0, nm + " out of order")


@harness(params=[{'step': s, 'mode': m} for s in (None, 1, 2) for m in ('neg', 'nonestart', 'nonestop', 'both')], modules=MODS, logic=LOGIC,
         encodes=['slicetools.indices'], bounds='start/stop in -n..n or absent, n<=5')
def indices_n(cx):
    step, mode = cx.p['step'], cx.p['mode']
    n = cx.bv('n', 1, 5)
    a, b = cx.bv('a', -5, 5), cx.bv('b', -5, 5)
    cx.assume(land(a >= -n, a <= n, b >= -n, b <= n))
    if mode == 'both':
        cx.check(slct.indices(slice(None, None, step), n) == [], "null slice must have no indices")
        return
    s = slice(None if mode == 'nonestart' else a, None if mode == 'nonestop' else b, step)
    L = slct.indices(s, n)
    lo = 0 if mode == 'nonestart' else ite(a < 0, a + n, a)
    hi = n if mode == 'nonestop' else ite(b < 0, b + n, b)
    x = cx.bv('x', -1, 6)
    cx.check(iff(in_list(x, L), member(x, lo, hi, step)), "indices(s, n) is not range(n)[s]")


@harness(params=[{'step': s} for s in STEPS], modules=MODS, logic=LOGIC, encodes=['slicetools.shift'], bounds='start, stop in 0..7, offset -7..7')
def shift(cx):
    step = cx.p['step']
    a, b, d = cx.bv('a', 0, B), cx.bv('b', 0, B), cx.bv('d', -B, B)
    r = slct.shift(slice(a, b, step), d)
    x = cx.bv('x', -1, B + 1)
    if step is None and a == 0 and b == 0:
        cx.check(lnot(member(x, r.start, r.stop, r.step)), "shifted null slice is not empty")
        return
    cx.check(iff(member(x + d, r.start, r.stop, r.step), member(x, a, b, step)), "shift moved the wrong indices")


@harness(params=[{'step': s, 'none': m} for s in STEPS for m in ('', 'a1', 'b1', 'a2', 'b2', 'a1b2')], modules=MODS, logic=LOGIC,
         encodes=['slicetools.intersect'], bounds='all starts/stops in 0..7 (or absent), equal steps')
def intersect(cx):
    step, none = cx.p['step'], cx.p['none']
    if none and step not in (None, 1):
        # an absent bound has no alignment: only unit steps are meaningful there
        cx.check(slct.intersect(slice(1, 1, step), slice(1, 1, step)) is not None, "trivial")
        return
    v = {k: (None if k in none else cx.bv(k, 0, B)) for k in ('a1', 'b1', 'a2', 'b2')}
    r = slct.intersect(slice(v['a1'], v['b1'], step), slice(v['a2'], v['b2'], step))
    x = cx.bv('x', 0, B + 1)
    cx.check(iff(member(x, r.start, r.stop, r.step), land(member(x, v['a1'], v['b1'], step), member(x, v['a2'], v['b2'], step))),
             "intersect() is not the set intersection")


@harness(params=[{'n': n, 'c': c} for n in (0, 1, 2, 3, 4) for c in (True, False)], thorough_params=[{'n': 5, 'c': True}, {'n': 5, 'c': False}], modules=MODS, logic=LOGIC, encodes=['slicetools.list_to_slice'],
         bounds='all lists of <=4 (5) integers in 0..5', kinds='i')
def list_to_slice(cx):
    n, c = cx.p['n'], cx.p['c']
    L = [cx.bv('l%d' % i, 0, 5) for i in range(n)]
    # lists that step by zero have no slice
    r = None
    try:
        r = slct.list_to_slice(list(L), array_ok=False, require_contiguous=c)
    except ValueError:
        pass
    steps = [q - p for p, q in zip(L, L[1:])]
    arith = land(*[s == steps[0] for s in steps], *[s != 0 for s in steps[:1]])
    # a descending run down to index 0 has no Python slice with an integer stop
    if n > 1:
        arith = land(arith, lor(steps[0] > 0, L[-1] + steps[0] >= 0))
    isok = land(arith, steps[0] == 1) if (c and n > 1) else arith
    cx.check(iff(isok, r is not None), "accepts exactly the lists that are slices")
    if r is not None:
        x = cx.bv('x', -1, 8)
        if n == 0:
            cx.check(lnot(member(x, r.start, r.stop, r.step)), "empty list must give an empty slice")
        else:
            st = 1 if r.step is None else r.step
            st = st.__index__()
            cx.check(iff(member(x, r.start, r.stop, st), in_list(x, L)), "slice selects other indices than the list")
            cx.check(r.start == L[0], "slice order")
    if n > 1:
        r2 = slct.list_to_slice(list(L), array_ok=True, require_contiguous=c)
        if isinstance(r2, slice):
            cx.check(r is not None, "array_ok changes the decision")
        else:
            cx.check(land(len(r2) == n, *[p == q for p, q in zip(r2, L)]), "array form differs from the list")


@harness(params=[{'step': s, 'm': m} for s in STEPS for m in (1, 2, 3)], modules=MODS, logic=LOGIC, encodes=['slicetools.divide'],
         bounds='start, stop in 0..7, maxLen 1..3')
def divide(cx):
    step, m = cx.p['step'], cx.p['m']
    a, b = cx.bv('a', 0, B), cx.bv('b', 0, B)
    subs = slct.divide(slice(a, b, step), m)
    x = cx.bv('x', -1, B + 1)
    t = count([member(x, s.start, s.stop, s.step) for s in subs]) if subs else 0
    cx.check(t == ite(member(x, a, b, step), 1, 0), "sub-slices do not partition the slice")
    for s in subs:
        k = count([member(y, s.start, s.stop, s.step) for y in range(-1, B + 2)])
        cx.check(land(k <= m, k >= 1), "sub-slice longer than maxLen or empty")
