"""P27: state-space labels and outcome-label dictionaries."""
import pickle
from symex.harness import harness, land, lor
from pygsti.objects import labeldicts as LD

MODS = ['pygsti.objects.labeldicts']
COMMON = dict(modules=MODS, kinds='', logic='QF_FD', limit=300)
META = {'assumptions': ['label structures are chosen by the solver among those listed, dimensions are symbolic integers; histories of outcome dictionaries have a bounded number of steps, keys and values are symbolic choices']}
S = LD.StateSpaceLabels

POOL = ['Q0', 'T1', 'L2', 'C3', 4, 0, 'QT', 'Ce']
DEFDIM = {'Q': 2, 'T': 3, 'L': 1, 'C': 2}
SHAPES = [(1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (1, 1, 1)]


def structure(cx):
    """a symbolic choice of blocks: distinct labels of the pool"""
    shape = cx.p['shape']
    n = sum(shape)
    i0 = cx.choice('start', range(len(POOL)))
    step = cx.choice('step', [1, 3, 5])
    lbls = [POOL[(i0 + k * step) % len(POOL)] for k in range(n)]
    out, k = [], 0
    for m in shape:
        out.append(tuple(lbls[k:k + m]))
        k += m
    return out


def fold(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def consistent(cx, s, blocks, dims, types):
    cx.check(s.labels == tuple(blocks), 'labels')
    cx.check(s.num_tensor_prod_blocks() == len(blocks), 'number of blocks')
    flat = [l for b in blocks for l in b]
    cx.check(set(s.labeldims) == set(flat) and set(s.labeltypes) == set(flat), 'every label has a dimension and a type')
    for l in flat:
        cx.check(s.labeldims[l] == dims[l], 'dimension of a label')
        cx.check(s.labeltypes[l] == types[l], 'type of a label')
    tot = 0
    for i, b in enumerate(blocks):
        d = fold([dims[l] for l in b])
        cx.check(s.tensor_product_block_labels(i) == b, 'labels of a block')
        bd = s.tensor_product_block_dims(i)
        cx.check(len(bd) == len(b) and land(*[x == dims[l] for x, l in zip(bd, b)]), 'dimensions of a block')
        cx.check(s.tpb_dims[i] == d, 'dimension of a block')
        cx.check(all(s.tpb_index[l] == i for l in b), 'block index of a label')
        tot = tot + d
    cx.check(s.dim == tot, 'total dimension')
    for l, m in zip(flat, flat[::-1]):
        cx.check(s.product_dim([l, m]) == dims[l] * dims[m], 'product dimension')
        cx.check(s.product_dim((l,)) == dims[l], 'product dimension of one label')
    cx.check(s.product_dim([]) == 1, 'product dimension of no label')


def kind(l): return 'C' if isinstance(l, str) and l.startswith('C') else 'Q'


@harness(params=[dict(shape=s, evo=e) for s in SHAPES for e in ('densitymx', 'statevec')] + [dict(shape=(2, 1), evo=e) for e in ('stabilizer', 'svterm', 'cterm')],
         encodes=['StateSpaceLabels.__init__', 'StateSpaceLabels.product_dim', 'StateSpaceLabels.tensor_product_block_dims', 'StateSpaceLabels.tensor_product_block_labels'],
         bounds='up to 3 labels in up to 3 blocks from 8 labels (24 selections per structure), every evolution type', **COMMON)
def default_dims(cx):
    """dimensions and types implied by the labels"""
    blocks = structure(cx)
    evo = cx.p['evo']
    types = {l: kind(l) for b in blocks for l in b}
    dims = {}
    for b in blocks:
        for l in b:
            d = 2 if isinstance(l, int) else DEFDIM[l[0]]
            dims[l] = d * d if types[l] == 'Q' and evo not in ('statevec', 'stabilizer') else d
    s = S(blocks, evotype=evo)
    consistent(cx, s, blocks, dims, types)
    consistent(cx, S(s), blocks, dims, types)
    consistent(cx, S(s, evotype='statevec'), blocks, dims, types)
    c = s.copy()
    c.labeldims[blocks[0][0]] = 7
    consistent(cx, s, blocks, dims, types)
    consistent(cx, pickle.loads(pickle.dumps(s)), blocks, dims, types)
    if len(blocks) == 1:
        consistent(cx, S(list(blocks[0]), evotype=evo), blocks, dims, types)
        if len(blocks[0]) == 1:
            consistent(cx, S(blocks[0][0], evotype=evo), blocks, dims, types)
    want = ' + '.join('*'.join('%s(%d%s)' % (l, dims[l], 'c' if types[l] == 'C' else '') for l in b) for b in blocks)
    cx.check(str(s) == want, 'printed form')


@harness(params=[dict(shape=s) for s in SHAPES], encodes=['StateSpaceLabels.__init__', 'StateSpaceLabels.reduce_dims_densitymx_to_state', 'StateSpaceLabels.product_dim', 'StateSpaceLabels.tensor_product_block_dims'],
         bounds='up to 3 labels in up to 3 blocks, every dimension from 1 to 15, every assignment of quantum and classical types', **COMMON)
def given_dims(cx):
    """given dimensions and types are used, copied and reduced"""
    shape = cx.p['shape']
    lbls = iter(['Q0', 5, 'B'])
    blocks = [tuple(next(lbls) for _ in range(m)) for m in shape]
    flat = [l for b in blocks for l in b]
    dims = {l: cx.bv('d%d' % i, 1, 15) for i, l in enumerate(flat)}
    types = {l: cx.choice('t%d' % i, ['Q', 'C']) for i, l in enumerate(flat)}
    form = cx.choice('form', ['list', 'tuple'])
    mk = list if form == 'list' else tuple
    s = S(mk(mk(b) for b in blocks), mk(mk(dims[l] for l in b) for b in blocks), mk(mk(types[l] for l in b) for b in blocks))
    consistent(cx, s, blocks, dims, types)
    consistent(cx, S(s), blocks, dims, types)
    if len(blocks) == 1:
        b = blocks[0]
        consistent(cx, S(mk(b), mk(dims[l] for l in b), mk(types[l] for l in b)), blocks, dims, types)
        if len(b) == 1:
            consistent(cx, S(b[0], dims[b[0]], types[b[0]]), blocks, dims, types)


@harness(params=[dict(shape=s) for s in SHAPES], encodes=['StateSpaceLabels.reduce_dims_densitymx_to_state'],
         bounds='up to 3 labels in up to 3 blocks, state dimensions 1 to 4 and 8, every assignment of quantum and classical types', **COMMON)
def reduce(cx):
    """reducing a density-matrix space gives the state space with the same labels"""
    lbls = iter(['Q0', 5, 'B'])
    blocks = [tuple(next(lbls) for _ in range(m)) for m in cx.p['shape']]
    flat = [l for b in blocks for l in b]
    sd = {l: cx.choice('d%d' % i, [1, 2, 3, 4, 8]) for i, l in enumerate(flat)}
    types = {l: cx.choice('t%d' % i, ['Q', 'C']) for i, l in enumerate(flat)}
    big = {l: sd[l]**2 if types[l] == 'Q' else sd[l] for l in flat}
    s = S(blocks, [[big[l] for l in b] for b in blocks], [[types[l] for l in b] for b in blocks])
    keep = S(s)
    s.reduce_dims_densitymx_to_state()
    consistent(cx, s, blocks, sd, types)
    consistent(cx, keep, blocks, big, types)


@harness(encodes=['StateSpaceLabels.__init__'], bounds='listed labels', **COMMON)
def bad_labels(cx):
    """labels that are neither strings nor integers, and labels without a dimension, are refused"""
    pos = cx.choice('pos', [0, 1])
    bad = cx.choice('bad', [1.5, None, ('Q0',), 'X7'])
    ls = ['Q0', 'Q1']
    ls[pos] = bad
    cx.check_raises(lambda: S([tuple(ls)]), 'a bad label is accepted', ValueError)


# ---------- outcome dictionaries
OUTS = [('0',), ('01',), ('0', '1')]


def spell(cx, nm, o):
    """a spelling of an outcome"""
    f = cx.choice(nm, ['str', 'tuple', 'list'][len(o) > 1:])
    if f == 'str':
        return o[0]
    return list(o) if f == 'list' else o


def same(cx, d, m):
    cx.check(list(d.keys()) == [k for k, _ in m], 'outcomes and their order')
    cx.check(land(*[x == y for x, (_, y) in zip(d.values(), m)]), 'values')
    cx.check(len(d) == len(m), 'length')


OPS = ['set', 'del', 'pop', 'get', 'update', 'setdefault']


@harness(params=[dict(op1=a, op2=b) for a in OPS for b in OPS], encodes=['OutcomeLabelDict.__getitem__', 'OutcomeLabelDict.__setitem__', 'OutcomeLabelDict.__contains__', 'OutcomeLabelDict.get', 'OutcomeLabelDict.pop', 'OutcomeLabelDict.to_outcome', 'OutcomeLabelDict.copy'],
         bounds='dictionaries initialised with two outcomes followed by every two operations, every outcome among 3 in every spelling, symbolic values', **COMMON)
def outcome_history(cx):
    """every spelling of an outcome denotes the same key in every operation"""
    vals = [cx.bv('v%d' % i, 0, 99) for i in range(4)]
    m = [(OUTS[0], vals[0]), (OUTS[2], vals[1])]
    d = LD.OutcomeLabelDict([('0', vals[0]), (('0', '1'), vals[1])])
    other = d.copy()
    for k, op in enumerate((cx.p['op1'], cx.p['op2'])):
        o = cx.choice('o%d' % k, OUTS)
        key = spell(cx, 's%d' % k, o)
        has = any(x == o for x, _ in m)
        cur = [y for x, y in m if x == o]
        v = vals[2 + k]
        if op == 'set' or op == 'update':
            if op == 'set':
                d[key] = v
            else:
                d.update([(key, v)])
            m = [(x, v if x == o else y) for x, y in m] + ([] if has else [(o, v)])
        elif op == 'setdefault':
            if isinstance(key, list):
                key = tuple(key)
            cx.check(d.setdefault(key, v) == (cur[0] if has else v), 'setdefault')
            m = m if has else m + [(o, v)]
        elif op in ('del', 'pop'):
            if not has:
                cx.check_raises(lambda: d.pop(key) if op == 'pop' else d.__delitem__(key), 'an absent outcome is removed', KeyError)
                if op == 'pop':
                    cx.check(d.pop(key, v) == v, 'pop with default')
            elif op == 'del':
                del d[key]
            else:
                cx.check(d.pop(key) == cur[0], 'pop returns the value')
            m = [(x, y) for x, y in m if x != o]
        else:
            if has:
                cx.check(land(d[key] == cur[0], d.get(key) == cur[0], d.get(key, v) == cur[0]), 'value of an outcome')
            else:
                cx.check_raises(lambda: d[key], 'an absent outcome has a value', KeyError)
                cx.check(d.get(key) is None and d.get(key, v) == v, 'default of an absent outcome')
        same(cx, d, m)
        for q in OUTS:
            here = any(x == q for x, _ in m)
            cx.check((q in d) == here and (list(q) in d) == here and (len(q) > 1 or (q[0] in d) == here), 'membership')
    same(cx, other, [(OUTS[0], vals[0]), (OUTS[2], vals[1])])
    same(cx, LD.OutcomeLabelDict(d), m)
    same(cx, d.copy(), m)


@harness(params=[dict(n=n) for n in (2, 3)], encodes=['OutcomeLabelDict.__init__', 'OutcomeLabelDict.__setitem__', 'OutcomeLabelDict.__reduce__'], bounds='every 2 or 3 outcomes (with repetition) among 3, every spelling, symbolic values', **COMMON)
def outcome_build(cx):
    """building from items, from another dictionary or step by step is the same; the last value of an outcome counts"""
    n = cx.p['n']
    os = [cx.choice('o%d' % i, OUTS) for i in range(n)]
    vs = [cx.bv('v%d' % i, 0, 99) for i in range(n)]
    ks = [spell(cx, 's%d' % i, o) for i, o in enumerate(os)]
    m = []
    for o, v in zip(os, vs):
        m = [(x, v if x == o else y) for x, y in m] + ([] if any(x == o for x, _ in m) else [(o, v)])
    d = LD.OutcomeLabelDict(list(zip(ks, vs)))
    same(cx, d, m)
    e = LD.OutcomeLabelDict()
    for k, v in zip(ks, vs):
        e[k] = v
    same(cx, e, m)
    f, args = d.__reduce__()[:2]
    same(cx, f(*args), m)
    f, args = d.__pygsti_reduce__()[:2]
    same(cx, f(*args), m)
    u = LD.OutcomeLabelDict()
    for k, v in zip(os, vs):
        if k not in u:
            u.setitem_unsafe(k, v)
        else:
            u[k] = v
    same(cx, u, m)
