"""Models with symbolic parameters and their expected probabilities (used by P13 and P14)."""
import itertools
import numpy as np
from pygsti.objects import operation as OP
from pygsti.objects import spamvec as SV
from pygsti.objects import povm as PV
from pygsti.objects import instrument as IN
from pygsti.objects import ExplicitOpModel, Circuit
from pygsti.objects.labeldicts import StateSpaceLabels
from checks.p15 import mm, mv, rows, composed, Spec
from checks.jet import Jet, jets

MODS = ['pygsti.objects.operation', 'pygsti.objects.spamvec', 'pygsti.objects.povm', 'pygsti.objects.instrument', 'pygsti.objects.modelmember', 'pygsti.objects.protectedarray',
        'pygsti.objects.replib.slowreplib', 'pygsti.tools.matrixtools', 'pygsti.tools.slicetools', 'pygsti.tools.mpitools', 'pygsti.objects.model', 'pygsti.objects.explicitmodel',
        'pygsti.objects.layerlizard', 'pygsti.objects.forwardsim', 'pygsti.objects.matrixforwardsim', 'pygsti.objects.mapforwardsim', 'pygsti.objects.evaltree', 'pygsti.objects.matrixevaltree',
        'pygsti.objects.mapevaltree', 'pygsti.objects.labeldicts']


# ---- members of a two-dimensional model (distributions over a classical bit); entries stay away from zero so that no rescaling happens

def gfull(a): return Spec(lambda: OP.FullDenseOp(np.array(a)), len(a)**2, lambda v: rows(v, len(a)))
def gtp(a): return Spec(lambda: OP.TPDenseOp(np.array(a)), len(a)**2 - len(a), lambda v: [[1.] + [0.] * (len(a) - 1)] + [list(v[i * len(a):(i + 1) * len(a)]) for i in range(len(a) - 1)])
def gstat(a): return Spec(lambda: OP.StaticDenseOp(np.array(a)), 0, lambda v: [[float(x) for x in r] for r in a])


def glin(a, mp):
    def ref(v):
        m = [[float(x) for x in r] for r in a]
        for p, ij in mp.items():
            for i, j in ij: m[i][j] = m[i][j] + v[p]
        return m
    return Spec(lambda: OP.LinearlyParamDenseOp(np.array(a, "d"), OP._np.zeros(len(mp)), mp, real=True), len(mp), ref)


def vfull(a, t='prep'): return Spec(lambda: SV.FullSPAMVec(np.array(a), 'auto', t), len(a), lambda v: list(v))
def vtp(a): return Spec(lambda: SV.TPSPAMVec(np.array(a)), len(a) - 1, lambda v: [float(a[0])] + list(v))
def vstat(a, t='prep'): return Spec(lambda: SV.StaticSPAMVec(np.array(a), 'auto', t), 0, lambda v: [float(x) for x in a])


A = [[.75, .25], [.125, .5]]
B = [[.5, .375], [.25, .625]]
C = [[.625, .125], [.25, .75]]
T = [[1., 0.], [.25, .5]]
U = [[1., 0.], [.375, .25]]
BIG = [[1.5, .75], [.5, 1.25]]
R0, R1 = [.75, .5], [2**-.25, .625]
SM = .0625


class M:
    """preps/povms/ops by label; a POVM is (kind, [(label, spec)]); kind 'un', 'tp' (last effect is the complement)"""

    def __init__(self, preps, povms, ops, insts=None, dim=2):
        self.preps, self.povms, self.ops, self.insts, self.dim = preps, povms, ops, insts or {}, dim

    def build(self, sim='matrix', cache=None):
        ss = StateSpaceLabels([('L%d' % i,) for i in range(self.dim)], dims=[(1,)] * self.dim)
        m = ExplicitOpModel(ss, 'std', sim_type=sim)
        for k, s in self.preps.items(): m[k] = s.build()
        for k, (kind, es) in self.povms.items():
            effs = [(l, s.build() if (kind == 'un' or l != es[-1][0]) else np.array(s)[:, None]) for l, s in es]
            m.povms[k] = PV.UnconstrainedPOVM(effs) if kind == 'un' else PV.TPPOVM(effs)
        for k, s in self.ops.items(): m[k] = s.build()
        for k, es in self.insts.items(): m.instruments[k] = IN.Instrument([(l, s.build()) for l, s in es])
        if sim == 'map' and cache is not None: m.set_simtype('map', max_cache_size=cache)
        m.to_vector()
        return m

    def refs(self, m, w):
        """label -> matrix/vector/effects over the model parameters `w`"""
        def loc(obj): return [w[int(i)] for i in obj.gpindices_as_array()]
        out = {}
        for k, s in self.preps.items(): out[k] = s.ref(loc(m.preps[k]))
        for k, s in self.ops.items(): out[k] = s.ref(loc(m.operations[k]))
        for k, es in self.insts.items():
            v, o = loc(m.instruments[k]), 0
            for l, s in es:
                out[k + '_' + l] = s.ref(v[o:o + s.n]); o += s.n
        for k, (kind, es) in self.povms.items():
            v, o, acc = loc(m.povms[k]), 0, []
            for i, (l, s) in enumerate(es):
                if kind == 'tp' and i == len(es) - 1:
                    tot = [float(x) + sum(float(e.build().todense()[j]) for _, e in es[:-1]) for j, x in enumerate(s)]
                    acc.append([t - sum((a[j] for a in acc[1:]), acc[0][j]) for j, t in enumerate(tot)])
                else:
                    acc.append(s.ref(v[o:o + s.n])); o += s.n
                out[k + '_' + l] = acc[-1]
        return out

    def outcomes(self, circ):
        """[(outcome label, [prep, op labels..., effect])] of a circuit (a tuple of label strings, prep and POVM optional)"""
        c = list(circ)
        prep = c.pop(0) if c and c[0] in self.preps else 'rho0'
        pov = c.pop() if c and c[-1] in self.povms else 'Mdefault'
        choices = [[(x, None)] if x not in self.insts else [(x + '_' + l, l) for l, _ in self.insts[x]] for x in c]
        out = []
        for sel in itertools.product(*choices):
            for l, _ in self.povms[pov][1]:
                out.append((tuple(o for _, o in sel if o is not None) + (l,), [prep] + [x for x, _ in sel] + [pov + '_' + l]))
        return out

    def prob(self, refs, path):
        v = refs[path[0]]
        for x in path[1:-1]: v = mv(refs[x], v)
        return sum(a * b for a, b in zip(refs[path[-1]], v))

    def circuits(self, cs):
        out = []
        for c in cs:
            c = list(c)
            if len(self.preps) > 1 and not (c and c[0] in self.preps): c.insert(0, 'rho0')
            if len(self.povms) > 1 and not (c and c[-1] in self.povms): c.append('Mdefault')
            out.append(Circuit(tuple(c)))
        return out


def un(*es): return ('un', [(str(i), vfull(e, 'effect')) for i, e in enumerate(es)])
def tpov(*es): return ('tp', [(str(i), vfull(e, 'effect') if i < len(es) - 1 else e) for i, e in enumerate(es)])


MODELS = {
    # all parameters free; two preparations, two POVMs
    'full': M({'rho0': vfull(R0), 'rho1': vfull(R1)}, {'Mdefault': un([.75, .25], [.25, .5]), 'Mb': un([.5, .5])}, {'Gx': gfull(A), 'Gy': gfull(B)}),
    # trace preserving with complement effect
    'tp': M({'rho0': vtp([2**-.25, .25])}, {'Mdefault': tpov([.75, .25], [.25, -.25])}, {'Gx': gtp(T), 'Gy': gtp(U)}),
    # shared, fixed and affine parameters; products of parameterised factors; norms above one
    'mix': M({'rho0': vstat(R0), 'rho1': vtp(R1)}, {'Mdefault': tpov([.5, .25], [.25, .25], [.25, .5])},
             {'Gx': glin(A, {0: [(0, 0), (1, 1)], 1: [(0, 1)]}), 'Gy': gstat(BIG), 'Gc': composed([glin(B, {0: [(0, 1)]}), gstat(T), glin(C, {0: [(1, 0), (1, 1)]})], True)}),
    'inst': M({'rho0': vfull(R0)}, {'Mdefault': un([.75, .25], [.25, .5])}, {'Gx': glin(A, {0: [(0, 0), (1, 0)]}), 'Gy': gtp(U)},
              {'Iz': [('p0', glin(B, {0: [(0, 0)]})), ('p1', glin(C, {0: [(1, 1)], 1: [(1, 0)]}))]}),
}


def params(cx, m, box=SM, v0=None):
    """one symbolic real per model parameter, in a box around the starting point"""
    v0 = [float(x) for x in (m.to_vector() if v0 is None else v0)]
    return [cx.real('v%d' % i, x - box, x + box) for i, x in enumerate(v0)]
