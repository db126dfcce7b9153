"""P10: distribution of work over processors and gathering (tools/mpitools, index helpers of tools/matrixtools)."""
import contextlib
import sys
import types
import numpy as np
from symex.harness import harness, land, lor, lnot, limplies, ite, RANGE
from pygsti.tools import mpitools as mpit
from pygsti.tools import matrixtools as mt

LOGIC = 'QF_FD'
MODS = [('pygsti.tools.mpitools', RANGE), ('pygsti.tools.slicetools', RANGE), ('pygsti.tools.matrixtools', RANGE)]
META = {'assumptions': [
    'the communicator is a stand-in with the documented meaning of Bcast/Allreduce/allgather/Split; ranks run one after the other: every rank '
    'is run three times: recording what it would send, re-sending with the sub-communicators known, and receiving the recorded buffers',
    'array contents are arbitrary symbolic integers']}


def iff(a, b):
    return land(limplies(a, b), limplies(b, a))


class Comm(object):
    """one rank of a communicator; log[k] = per-call data contributed by the ranks"""

    def __init__(self, size, rank, log, record):
        self.size, self.rank, self.log, self.record = size, rank, log, record
        self.k = 0
        self.split = []
        self.calls = []

    def Get_size(self): return self.size
    def Get_rank(self): return self.rank

    def _slot(self, kind):
        k = self.k
        self.k += 1
        self.calls.append(kind)
        return self.log.setdefault(k, {})

    def Bcast(self, buf, root=0):
        d = self._slot(('Bcast', int(root), tuple(int(x) for x in np.shape(buf))))
        if self.rank == root:
            d[self.rank] = [x for x in buf.reshape(-1)]
        elif not self.record:
            # a broadcast delivers a flat buffer
            vals = np.empty(len(d[root]), dtype=object)
            for i, x in enumerate(d[root]):
                vals[i] = x
            buf[...] = vals.reshape(buf.shape)
        else:
            buf[...] = 0

    def Allreduce(self, src, dst, op=None):
        d = self._slot(('Allreduce', tuple(np.shape(src))))
        d[self.rank] = src.copy()
        if self.record:
            dst[...] = src
        else:
            t = d[0]
            for r in range(1, self.size):
                t = t + d[r]
            dst[...] = t

    def allreduce(self, x, op=None):
        d = self._slot(('allreduce',))
        d[self.rank] = x
        if self.record:
            return x
        t = d[0]
        for r in range(1, self.size):
            t = t + d[r]
        return t

    def allgather(self, x):
        d = self._slot(('allgather',))
        d[self.rank] = x
        return [d.get(r) if d.get(r) is not None else (x if r == self.rank else []) for r in range(self.size)]

    def Split(self, color=0, key=0):
        d = self._slot(('Split',))
        d[self.rank] = (color, key)
        self.split.append((color, key))
        if self.record:
            return Comm(1, 0, {}, True)
        mem = sorted(r for r in range(self.size) if d[r][0] == color)
        return Comm(len(mem), mem.index(self.rank), {}, self.record)


@contextlib.contextmanager
def fake_mpi():
    m = types.ModuleType('mpi4py')
    m.MPI = types.SimpleNamespace(SUM='SUM', COMM_WORLD=None)
    old = {k: sys.modules.get(k) for k in ('mpi4py', 'mpi4py.MPI')}
    sys.modules['mpi4py'] = m
    sys.modules['mpi4py.MPI'] = m.MPI
    try:
        yield
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def run_ranks(size, fn):
    """fn(comm) on every rank -> list of (result, comm) of the second pass"""
    log = {}
    with fake_mpi():
        for record in (True, False):      # pass 1: sends; pass 2: sends that depend on Split results
            for r in range(size):
                fn(Comm(size, r, log, record))
        out = []
        for r in range(size):
            c = Comm(size, r, log, False)
            out.append((fn(c), c))
    return out


def same_calls(cx, out):
    for _, c in out[1:]:
        cx.check(c.calls == out[0][1].calls, "ranks disagree on the sequence of collective calls (would deadlock)")


@harness(params=[{'n': n, 'split': s} for n in (0, 1, 2, 3, 4, 5) for s in (True, False)], modules=MODS, logic=LOGIC,
         thorough_params=[{'n': n, 'split': s} for n in (6, 7, 8) for s in (True, False)],
         encodes=['mpitools.distribute_indices_base'], bounds='<=5 (8) items, 1..7 ranks, every pair of ranks')
def indices_base(cx):
    n, split = cx.p['n'], cx.p['split']
    P = cx.bv('nprocs', 1, 7)
    r1, r2 = cx.bv('r1', 0, 6), cx.bv('r2', 0, 6)
    cx.assume(land(r1 < P, r2 < P))
    items = ['i%d' % k for k in range(n)]
    loc1, own1 = mpit.distribute_indices_base(items, P, r1, split)
    loc2, own2 = mpit.distribute_indices_base(items, P, r2, split)
    cx.check(set(own1) == set(items), "owners must cover exactly the items")
    cx.check(land(*[own1[k] == own2[k] for k in items]) if items else len(own2) == 0, "ranks disagree about owners")
    cx.check(len(set(loc1)) == len(loc1), "an index is assigned twice to a rank")
    for k in items:
        cx.check(land(own1[k] >= 0, own1[k] < P), "owner out of range")
        if k not in loc1:
            cx.check(own1[k] != r1, "the owner of an index does not hold it")
        elif not split or P < n:
            cx.check(own1[k] == r1, "an index is held by a rank that does not own it")
            if k in loc2:
                cx.check(r1 == r2, "an index is computed by two ranks")
        else:
            # several ranks share one index: they form one contiguous group led by the owner
            cx.check(own1[k] <= r1, "owner is not the first rank of its group")
            if r1 < r2:
                if k in loc2:
                    cx.check(True, "group")
                else:
                    j = items.index(loc2[0])
                    cx.check(j > items.index(k), "groups of ranks are not contiguous")
    if n and split:
        cx.check(limplies(P >= n, len(loc1) == 1), "with enough ranks every rank works on one index")
    if n:
        # the load is balanced
        cx.check(len(loc1) - len(loc2) <= 1, "unbalanced distribution")


@harness(params=[{'k': k} for k in (1, 2, 3, 4, 5)], modules=MODS, logic=LOGIC, encodes=['mpitools.slice_up_range', 'mpitools.slice_up_slice'],
         bounds='ranges of 0..12 elements, start -3..6, 1..5 pieces')
def slice_up(cx):
    k = cx.p['k']
    n = cx.bv('n', 0, 12)
    st = cx.bv('s', -3, 6)
    for nm, r, off in (('slice_up_range', mpit.slice_up_range(n, k, st), st), ('slice_up_slice', mpit.slice_up_slice(slice(st, st + n), k), st),
                       ('slice_up_slice(0)', mpit.slice_up_range(n, k), 0)):
        cx.check(len(r) == k, nm + " number of pieces")
        cx.check(r[0].start == off, nm + " first start")
        cx.check(r[-1].stop == off + n, nm + " last stop")
        for a, b in zip(r, r[1:]):
            cx.check(a.stop == b.start, nm + " pieces must be adjacent")
        for a in r:
            for b in r:
                cx.check((a.stop - a.start) - (b.stop - b.start) <= 1, nm + " pieces must be balanced")
            cx.check(a.step is None and bool(a.stop >= a.start) if not cx.symbolic else a.stop >= a.start, nm + " negative piece")


@harness(params=[{'n': n, 'P': p, 'split': s} for n in (0, 1, 2, 3, 5) for p in (1, 2, 3, 4) for s in (True, False)], modules=MODS, logic=LOGIC,
         encodes=['mpitools.distribute_slice'], bounds='<=5 elements, 1..4 ranks, symbolic start')
def dist_slice(cx):
    n, P, split = cx.p['n'], cx.p['P'], cx.p['split']
    if n == 0:
        cx.check(mpit.slice_up_slice(slice(2, 2), 1)[0] == slice(2, 2), "empty")
        return
    st = cx.bv('s', 0, 4)
    out = run_ranks(P, lambda c: mpit.distribute_slice(slice(st, st + n), c, split))
    same = len(set(len(c.calls) for _, c in out)) == 1
    cx.check(same, "ranks disagree on the number of collective calls")
    slices = out[0][0][0]
    x = cx.bv('x', -1, 11)
    cnt = 0
    for s in slices:
        cnt = cnt + ite(land(x >= s.start, x < s.stop), 1, 0)
    cx.check(cnt == ite(land(x >= st, x < st + n), 1, 0), "slices do not partition the range")
    for r, ((sl, loc, owners, lc), c) in enumerate(out):
        cx.check(land(*[land(a.start == b.start, a.stop == b.stop) for a, b in zip(sl, slices)]), "ranks see different slices")
        cx.check(owners == out[0][0][2], "ranks see different owners")
        mine = [i for i, o in owners.items() if o == r]
        for i in mine:
            cx.check(land(loc.start == sl[i].start, loc.stop == sl[i].stop), "owner does not hold its slice")
        if loc.start is not None:
            cx.check(lor(*[land(loc.start == a.start, loc.stop == a.stop) for a in sl]), "local slice is not one of the slices")
        if P > n and split:
            ranks = [q for q in range(P) if out[q][1].split[0][0] == c.split[0][0]]
            cx.check(all(bool(out[q][0][1].start == loc.start) for q in ranks), "sub-communicator mixes slices")
            cx.check(lc is not None, "sub-communicator expected")
        else:
            cx.check(lc is None, "unexpected sub-communicator")


def grid(cx, shape, name):
    return cx.bvmx(name, shape, 0, 3)


def own_parts(cx, full, masks, r, dtype=None):
    """rank r's view: its own parts hold the data, the rest garbage"""
    return None


@harness(params=[{'P': P, 'buf': b, 'axes': ax} for P in (2, 3) for b in (None, 8, 24, 40) for ax in ('0', '1', '01', 'i0')], modules=MODS, logic=LOGIC,
         kinds='ifb', encodes=['mpitools.gather_slices', 'mpitools.gather_slices_by_owner', 'matrixtools._findx', 'matrixtools._fas', 'matrixtools._findx_shape'],
         bounds='2-3 ranks, arrays up to 4x3 with symbolic contents, symbolic cut points, every buffer limit listed')
def gather(cx):
    P, buf, ax = cx.p['P'], cx.p['buf'], cx.p['axes']
    shape = (4, 3)
    full = grid(cx, shape, 'f')
    junk = [grid(cx, shape, 'j%d' % r) for r in range(P)]
    inds, axes = [], {'0': 0, '1': (1,), '01': (0, 1), 'i0': 0}[ax]
    if ax == 'i0':
        shape = (3, 4)
        full = full.reshape(shape)
        junk = [j.reshape(shape) for j in junk]
        inds, axes = [cx.choice('row', [slice(1, 2), np.array([1], np.int64)])], 1   # fill only row 1
    # cut points along the gathered axis
    n0 = shape[1] if ax in ('1', 'i0') else shape[0]
    c1 = cx.choice('c1', range(0, n0 + 1))
    sl = [slice(0, c1), slice(c1, n0)]
    if ax == '01':
        slices = [(a, b) for a in sl for b in (slice(0, 1), slice(1, 3))]
    elif ax == '1':
        slices = [(a,) for a in sl]
    else:
        slices = sl
    owners = [cx.choice('o%d' % i, range(P)) for i in range(len(slices))]

    def mask(i):
        m = np.zeros(shape, bool)
        s = slices[i]
        s = s if isinstance(s, tuple) else (s,)
        if ax in ('0',):
            m[s[0]] = True
        elif ax == '1':
            m[:, s[0]] = True
        elif ax == '01':
            m[s[0], s[1]] = True
        else:
            m[1, s[0]] = True
        return m

    def start(r):
        a = junk[r].copy()
        for i in range(len(slices)):
            if owners[i] == r:
                for ix in zip(*np.nonzero(mask(i))):
                    a[ix] = full[ix]
        return a

    res = {}
    ow = dict(enumerate(owners))
    for nm in ('gather_slices', 'gather_slices_by_owner'):
        def f(c):
            a = start(c.Get_rank())
            if nm == 'gather_slices':
                mpit.gather_slices(slices, ow, a, inds, axes, c, buf)
            else:
                mine = [s for i, s in enumerate(slices) if owners[i] == c.Get_rank()]
                mpit.gather_slices_by_owner(mine, a, inds, axes, c, buf)
            return a
        out = run_ranks(P, f)
        same_calls(cx, out)
        tot = np.zeros(shape, bool)
        for i in range(len(slices)):
            tot |= mask(i)
        for r, (a, c) in enumerate(out):
            for ix in np.ndindex(*shape):
                want = full[ix] if tot[ix] else junk[r][ix]
                cx.check(a[ix] == want, nm + ": rank does not hold the gathered data" if tot[ix] else nm + ": element outside the slices overwritten")


@harness(params=[{'P': P, 'buf': b, 'm': m} for P in (2,) for b in (None, 8, 16) for m in (1, 2, 3, 4)], modules=MODS, logic=LOGIC,
         kinds='ifb', encodes=['mpitools.gather_indices'], bounds='2 ranks, arbitrary (also descending) lists of distinct indices of <=5 elements')
def gather_idx(cx):
    P, buf, m = cx.p['P'], cx.p['buf'], cx.p['m']
    N = 4 if m > 2 else 5
    full = grid(cx, (N,), 'f')
    junk = [grid(cx, (N,), 'j%d' % r) for r in range(P)]
    L = [cx.choice('l%d' % i, range(N)) for i in range(m)]
    cx.assume(len(set(L)) == m)
    rest = [i for i in range(N) if i not in L]
    k = cx.choice('kind', ['array', 'slice'])
    second = np.array(rest, np.int64) if k == 'array' else slice(0, 0)
    inds = [np.array(L, np.int64), second]
    owners = {0: cx.choice('o0', range(P)), 1: cx.choice('o1', range(P))}
    held = {0: L, 1: rest if k == 'array' else []}

    def f(c):
        r = c.Get_rank()
        a = junk[r].copy()
        for i in (0, 1):
            if owners[i] == r:
                for x in held[i]:
                    a[x] = full[x]
        mpit.gather_indices(inds, owners, a, [], 0, c, buf)
        return a
    out = run_ranks(P, f)
    same_calls(cx, out)
    for r, (a, c) in enumerate(out):
        for x in range(N):
            want = full[x] if (x in held[0] or x in held[1]) else junk[r][x]
            cx.check(a[x] == want, "gather_indices: rank does not hold the gathered data")


@harness(params=[{'P': P, 'n': n} for P in (1, 2, 3) for n in (3, 4, 5) if n >= P], modules=MODS, logic=LOGIC, kinds='ifb',
         encodes=['mpitools.mpidot', 'mpitools.distribute_for_dot'], bounds='2xn . nx2 products, n<=5, 1..3 ranks')
def dot(cx):
    P, n = cx.p['P'], cx.p['n']
    A = cx.bvmx('a', (2, n), -2, 2)
    B = cx.bvmx('b', (n, 2), -2, 2)

    def f(c):
        return mpit.mpidot(A, B, mpit.distribute_for_dot(n, c), c)
    out = run_ranks(P, f)
    for R, _ in out:
        for i in range(2):
            for j in range(2):
                t = 0
                for k in range(n):
                    t = t + A[i, k] * B[k, j]
                cx.check(R[i, j] == t, "parallel product differs from the serial product")


@harness(params=[{'P': P, 'n': n} for P in (1, 2, 3, 4) for n in (1, 2, 3, 5)], modules=MODS, logic=LOGIC, kinds='ifb',
         encodes=['mpitools.parallel_apply', 'mpitools.distribute_indices', 'mpitools.sum_across_procs'], bounds='<=5 items, 1..4 ranks')
def papply(cx):
    P, n = cx.p['P'], cx.p['n']
    v = [cx.bv('v%d' % i, 0, 7) for i in range(n)]
    out = run_ranks(P, lambda c: mpit.parallel_apply(lambda k: 3 * v[k] + 1, list(range(n)), c))
    # the first pass contributes incomplete gathers only to itself; the second pass sees all ranks
    for R, _ in out:
        cx.check(len(R) == n, "parallel_apply returns a result per item")
        for k in range(n):
            cx.check(R[k] == 3 * v[k] + 1, "parallel_apply result order/value")
    xs = [cx.bv('x%d' % r, 0, 7) for r in range(P)]
    out = run_ranks(P, lambda c: mpit.sum_across_procs(xs[c.Get_rank()], c))
    t = 0
    for x in xs:
        t = t + x
    for R, _ in out:
        cx.check(R == t, "sum over ranks")


@harness(params=[{'k0': a, 'k1': b} for a in ('int', 'slice', 'arr', 'none', 'stepslice') for b in ('int', 'slice', 'arr', 'none', 'absent')
                 if (a, b) != ('int', 'int')],
         modules=MODS, logic=LOGIC, kinds='ifb', encodes=['matrixtools._findx', 'matrixtools._fas', 'matrixtools._findx_shape'],
         bounds='3x4 arrays with symbolic contents; integer/slice/list indices with arbitrary values')
def findx(cx):
    k0, k1 = cx.p['k0'], cx.p['k1']
    shape = (3, 4)
    a = cx.bvmx('a', shape, 0, 3)

    def mk(kind, n, nm):
        if kind == 'int':
            i = cx.choice(nm + 'i', range(n))
            return i, [i]
        if kind == 'slice':
            s, e = cx.choice(nm + 's', range(n)), cx.choice(nm + 'e', range(n + 1))
            return slice(s, e), list(range(s, e))
        if kind == 'stepslice':
            s = cx.choice(nm + 's', range(n))
            return slice(s, n, 2), list(range(s, n, 2))
        if kind == 'arr':
            l = [cx.choice(nm + '0', range(n)), cx.choice(nm + '1', range(n))]
            return np.array(l, np.int64), l
        return None, list(range(n))
    i0, l0 = mk(k0, 3, 'p')
    if k1 == 'absent':
        inds, l1, i1 = [i0], list(range(4)), None
    else:
        i1, l1 = mk(k1, 4, 'q')
        inds = [i0, i1]
    a0 = a.copy()
    r = mt._findx(a, inds, True)
    shp = tuple(len(l) for l, k in ((l0, k0), (l1, k1)) if k != 'int')
    cx.check(tuple(r.shape) == shp, "_findx shape")
    flat = list(r.reshape(-1))
    want = [a[i, j] for i in l0 for j in l1]
    cx.check(land(*[x == y for x, y in zip(flat, want)]) if want else True, "_findx selects the wrong elements")
    if k0 != 'int' and k1 != 'int':
        cx.check(tuple(mt._findx_shape(a, inds)) == shp, "_findx_shape")
    if shp and len(flat):
        r[...] = r + 1
        cx.check(land(*[x == y for x, y in zip(a.reshape(-1), a0.reshape(-1))]), "always_copy must not alias")
    if len(set(l0)) == len(l0) and len(set(l1)) == len(l1):
        for add in (False, True):
            rhs = cx.bvmx('r%d' % add, shp if shp else (1,), 0, 3)
            if not shp:
                rhs = rhs[0] if not hasattr(i0, '__len__') else rhs
            b = a0.copy()
            mt._fas(b, inds, rhs, add)
            rf = [rhs] if not shp else list(rhs.reshape(-1))
            exp = {}
            for t, (i, j) in enumerate((i, j) for i in l0 for j in l1):
                exp[i, j] = rf[t]
            for ix in np.ndindex(*shape):
                w = a0[ix] if ix not in exp else (a0[ix] + exp[ix] if add else exp[ix])
                cx.check(b[ix] == w, "_fas assigns the wrong elements")
