"""A family of small real models, each with an independent reference (`Ref`) that multiplies out plain numpy matrices.

make(name, sim) -> (model, ref, layers) ; NAMES lists the family.  The reference holds the matrices the members were *given*
(leaf level); parallel layers, embedding, repetition, sub-circuits, instruments and marginal POVMs are composed here from scratch
in the Pauli-product (or state-vector) representation.
"""
import itertools, collections
import numpy as np

S2 = np.sqrt(.5)
X = np.array([[0, 1], [1, 0]], complex); Y = np.array([[0, -1j], [1j, 0]]); Z = np.diag([1, -1]).astype(complex); I2 = np.eye(2, dtype=complex)
PAULI = [I2, X, Y, Z]


def rot(P, th):
    return np.cos(th / 2) * np.eye(len(P)) - 1j * np.sin(th / 2) * P


UN = {'Gi': I2, 'Gx': rot(X, np.pi / 2), 'Gy': rot(Y, np.pi / 2), 'Gxpi': X, 'Gypi': Y, 'Gh': S2 * np.array([[1, 1], [1, -1]], complex), 'Gp': np.diag([1, 1j]),
      'Gcnot': np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], complex), 'Gcphase': np.diag([1, 1, 1, -1]).astype(complex)}


def ppbasis(n):
    out = []
    for t in itertools.product(PAULI, repeat=n):
        m = np.eye(1)
        for p in t: m = np.kron(m, p)
        out.append(m / np.sqrt(2) ** n)
    return out


def gmbasis1(): return [I2 / np.sqrt(2), X / np.sqrt(2), Y / np.sqrt(2), Z / np.sqrt(2)]


def superop(U, basis):
    return np.array([[np.real(np.trace(b.conj().T @ U @ c @ U.conj().T)) for c in basis] for b in basis])


def vec(rho, basis):
    return np.array([np.real(np.trace(b.conj().T @ rho)) for b in basis])


def embed(M, qs, n, d=4):
    """matrix of M (acting on the tensor factors `qs`, in that order) on n factors of dimension d"""
    m = len(qs)
    T = np.eye(d ** n, dtype=M.dtype).reshape((d,) * n + (d ** n,))
    T = np.tensordot(M.reshape((d,) * (2 * m)), T, axes=(list(range(m, 2 * m)), list(qs)))
    return np.moveaxis(T, list(range(m)), list(qs)).reshape(d ** n, d ** n)


class Ref(object):
    """preps {name: vector}; povms {name: OrderedDict outcome->vector}; prim(label)->matrix or OrderedDict (instrument);
    layer order/extra noise supplied by `layer`"""

    def __init__(self, lines, d=4, pure=False):
        self.lines = lines; self.d = d; self.pure = pure
        self.preps = collections.OrderedDict(); self.povms = collections.OrderedDict(); self.prims = {}
        self.extra = None        # function(list of component labels) -> matrix applied after (or before) the layer
        self.empty = None

    def prim(self, l):
        """l: a simple Label (no components) -> matrix | OrderedDict of matrices"""
        for key in (l, (l.name, l.sslbls), l.name):
            try:
                if key in self.prims: return self.prims[key]
            except TypeError: pass
        raise KeyError(l)

    def D(self): return len(next(iter(self.preps.values())))

    def branches(self, circuit_layers):
        """[(outcome tuple, matrix)] of a sequence of layer labels"""
        out = [((), np.eye(self.D(), dtype=complex if self.pure else float))]
        for l in circuit_layers:
            lb = self.layer(l)
            out = [(o + o2, m2 @ m) for o, m in out for o2, m2 in lb]
        return out

    def layer(self, l):
        from pygsti.objects.label import CircuitLabel
        if isinstance(l, CircuitLabel):
            return self.sub(l)
        comps = l.components
        out = [((), np.eye(self.D()))]
        for c in comps:
            if isinstance(c, CircuitLabel): b = self.sub(c)
            else:
                M = self.prim(c)
                b = [((k,), v) for k, v in M.items()] if isinstance(M, dict) else [((), M)]
            out = [(o + o2, m2 @ m) for o, m in out for o2, m2 in b]
        if self.extra is not None:
            A, B = self.extra(comps)      # before, after
            out = [(o, B @ m @ A) for o, m in out]
        return out

    def sub(self, cl):
        b = self.branches(cl.components)
        out = [((), np.eye(self.D()))]
        for _ in range(cl.reps): out = [(o + o2, m2 @ m) for o, m in out for o2, m2 in b]
        return out

    def probs(self, layers, prep=None, povm=None, lines=None):
        """OrderedDict outcome tuple -> probability;  lines: measured qubits (default all)"""
        prep = prep or next(iter(self.preps)); povm = povm or next(iter(self.povms))
        res = collections.OrderedDict()
        P = self.povms[povm]
        if lines is not None and lines != '*' and tuple(lines) != tuple(self.lines):
            idx = [self.lines.index(q) for q in lines]
            Q = collections.OrderedDict()
            for k in itertools.product('01', repeat=len(idx)): Q[''.join(k)] = 0
            for k, v in P.items(): Q[''.join(k[i] for i in idx)] = Q[''.join(k[i] for i in idx)] + v
            P = Q
        for o, m in self.branches(layers):
            v = m @ self.preps[prep]
            for k, e in P.items():
                p = abs(np.vdot(e, v)) ** 2 if self.pure else float(np.real(np.vdot(e, v)))
                res[o + (k,)] = res.get(o + (k,), 0) + p
        return res


def rng(seed): return np.random.RandomState(seed)


def noisy(n, seed, tp=True, basis=None, strength=.05):
    """random near-identity superoperator in a basis whose first element is proportional to the identity"""
    d = 4 ** n if basis is None else basis
    M = np.eye(d) + strength * rng(seed).randn(d, d)
    if tp: M[0] = 0; M[0, 0] = 1
    return M


EXPLICIT = ['full', 'TP', 'static', 'CPTP', 'H+S', 'GLND', 'S', 'S+A', 'H+D+A', 'full-gm', 'full1', 'TP1', 'CPTP1']


def explicit1(param, sim, instrument=True):
    """one qubit (line label 0): two preps, two POVMs, gates Gi Gx Gy, the empty layer and an instrument Iz"""
    from pygsti.objects import ExplicitOpModel, Label
    from pygsti.objects.instrument import Instrument, TPInstrument
    from pygsti.objects import povm as _povm, spamvec as _sv, operation as _op
    basis = 'gm' if param == 'full-gm' else 'pp'; par = param.split('-')[0].rstrip('1'); single = param.endswith('1')
    B = ppbasis(1)
    start = 'full' if par in ('full', 'static') else ('TP' if par == 'TP' else 'static')
    m = ExplicitOpModel([(0,)], basis, default_param=start, sim_type=sim)
    v = {'0': vec(np.diag([1, 0]), B), '1': vec(np.diag([0, 1]), B), '+': vec(.5 * np.array([[1, 1], [1, 1]]), B)}
    lind = par not in ('full', 'TP', 'static')
    dep = np.diag([1., .98, .97, .95])
    m.preps['rho0'] = dep @ v['0'] if not lind else v['0']
    if not single: m.preps['rho1'] = dep @ v['+'] if not lind else v['+']
    m.povms['Mdefault'] = mk_povm([('0', v['0']), ('1', v['1'])], start)
    if not lind and not single: m.povms['M2'] = mk_povm([('a', .5 * v['0']), ('b', .3 * v['1'] + .2 * v['+']), ('c', v['0'] + v['1'] - .5 * v['0'] - .3 * v['1'] - .2 * v['+'])], start)
    for k, g in enumerate(('Gi', 'Gx', 'Gy')):
        M = superop(UN[g], B)
        if not lind: M = noisy(1, k, tp=(par != 'full')) @ M
        m.operations[g] = M
    m.operations[Label(())] = superop(rot(Z, .1), B)
    if not lind and instrument:
        P0 = superop_kraus([np.diag([1, 0])], B); P1 = superop_kraus([np.diag([0, 1])], B)
        els = [('p0', .9 * P0 + .1 * P1), ('p1', .1 * P0 + .9 * P1)]
        m.instruments['Iz'] = Instrument([(k, _op.StaticDenseOp(x)) for k, x in els]) if par == 'static' else TPInstrument(els) if par == 'TP' else Instrument(els)
    m.set_simtype(sim)
    if lind or par == 'static': m.set_all_parameterizations(par); m.set_simtype(sim)
    if m.num_params(): m.from_vector(m.to_vector() + .02 * rng(7).randn(m.num_params()))
    r = Ref([0])
    for k, p in m.preps.items(): r.preps[str(k)] = np.array(p.todense()).ravel()
    for k, p in m.povms.items(): r.povms[str(k)] = collections.OrderedDict((str(o), np.array(e.todense()).ravel()) for o, e in p.items())
    for k, g in m.operations.items():
        if k.name != 'COMPOUND': r.prims[k] = np.array(g.todense())
    emp = np.array(m.operations[Label(())].todense())
    r.extra = lambda comps: (emp if not comps else np.eye(4), np.eye(4)); r.lines = '*'
    for k, i in m.instruments.items(): r.prims[k] = collections.OrderedDict((str(o), np.array(g.todense())) for o, g in i.items())
    return m, r


def superop_kraus(Ks, basis):
    return sum(np.array([[np.real(np.trace(b.conj().T @ K @ c @ K.conj().T)) for c in basis] for b in basis]) for K in Ks)


def mk_povm(items, par):
    from pygsti.objects import povm as _povm, spamvec as _sv
    if par == 'TP': return _povm.TPPOVM(items)
    if par == 'static': return _povm.UnconstrainedPOVM([(k, _sv.StaticSPAMVec(v, typ='effect')) for k, v in items])
    return _povm.UnconstrainedPOVM(items)


def explicit2(sim, kind='mixed'):
    """two qubits (lines 'Qa','Qb'), every way of building an operation: dense, embedded, composed, exponentiated, Lindblad, shared factors"""
    from pygsti.objects import ExplicitOpModel, Label
    from pygsti.objects import povm as _povm, spamvec as _sv, operation as _op
    dense = sim == 'matrix'
    Emb = _op.EmbeddedDenseOp if dense else _op.EmbeddedOp
    Comp = _op.ComposedDenseOp if dense else _op.ComposedOp
    lines = ('Qa', 'Qb'); m = ExplicitOpModel([lines], 'pp', sim_type=sim, default_param='full'); B1, B2 = ppbasis(1), ppbasis(2)
    r = Ref(list(lines))
    gx = noisy(1, 1, False) @ superop(UN['Gx'], B1); gy = noisy(1, 2) @ superop(UN['Gy'], B1); cn = noisy(2, 3, False) @ superop(UN['Gcnot'], B2)
    ogx = _op.FullDenseOp(gx.copy()); ogy = _op.TPDenseOp(gy.copy())
    sp = m.state_space_labels
    m.operations[('Gx', 'Qa')] = Emb(sp, ['Qa'], ogx); r.prims[Label(('Gx', 'Qa'))] = embed(gx, [0], 2)
    m.operations[('Gx', 'Qb')] = Emb(sp, ['Qb'], ogx); r.prims[Label(('Gx', 'Qb'))] = embed(gx, [1], 2)
    m.operations[('Gy', 'Qb')] = Comp([Emb(sp, ['Qb'], ogy), Emb(sp, ['Qa'], _op.StaticDenseOp(gx.copy()))]); r.prims[Label(('Gy', 'Qb'))] = embed(gx, [0], 2) @ embed(gy, [1], 2)
    m.operations[('Gcnot', 'Qa', 'Qb')] = _op.FullDenseOp(cn.copy()); r.prims[Label(('Gcnot', 'Qa', 'Qb'))] = cn
    cnr = embed(cn, [1, 0], 2)
    m.operations[('Gcnot', 'Qb', 'Qa')] = Emb(sp, ['Qb', 'Qa'], _op.FullDenseOp(cn.copy())); r.prims[Label(('Gcnot', 'Qb', 'Qa'))] = cnr
    m.operations['Grep'] = Comp([_op.ExponentiatedOp(Emb(sp, ['Qb'], ogy), 3), Emb(sp, ['Qb', 'Qa'], _op.StaticDenseOp(cn.copy()))]) if not dense else Comp([Emb(sp, ['Qb'], ogy)] * 3 + [Emb(sp, ['Qb', 'Qa'], _op.StaticDenseOp(cn.copy()))])
    r.prims[Label('Grep')] = cnr @ np.linalg.matrix_power(embed(gy, [1], 2), 3)
    dep = np.diag([1., .98, .97, .95]); e = [vec(np.diag([1, 0]), B1), vec(np.diag([0, 1]), B1)]
    r0 = dep @ e[0]; r1 = noisy(1, 9) @ e[0]
    m.preps['rho0'] = _sv.TensorProdSPAMVec('prep', [_sv.TPSPAMVec(r0.copy()), _sv.TPSPAMVec(r1.copy())]); r.preps['rho0'] = np.kron(r0, r1)
    m.preps['rho1'] = _sv.ComputationalSPAMVec([1, 0], 'densitymx'); r.preps['rho1'] = np.kron(e[1], e[0])
    f = [dep @ e[0], None]; f[1] = np.array([np.sqrt(2), 0, 0, 0]) - f[0]; g = [dep @ dep @ e[0], None]; g[1] = np.array([np.sqrt(2), 0, 0, 0]) - g[0]
    m.povms['Mdefault'] = _povm.TensorProdPOVM([_povm.TPPOVM([('0', f[0].copy()), ('1', f[1].copy())]), _povm.TPPOVM([('0', g[0].copy()), ('1', g[1].copy())])])
    r.povms['Mdefault'] = collections.OrderedDict((x + y, np.kron(f[int(x)], g[int(y)])) for x in '01' for y in '01')
    m.povms['Mc'] = _povm.ComputationalBasisPOVM(2, 'densitymx'); r.povms['Mc'] = collections.OrderedDict((x + y, np.kron(e[int(x)], e[int(y)])) for x in '01' for y in '01')
    return m, r


def local(n, par, sim, lines=None, **kw):
    """implicit model with local noise; the leaf gate matrices are read back, everything else is composed here"""
    from pygsti.construction import build_localnoise_model
    from pygsti.objects import Label
    from pygsti.objects import operation as _op
    lines = tuple(lines or range(n)); evo = 'statevec' if par == 'static unitary' else 'densitymx'
    B1 = ppbasis(1)
    names = ['Gx', 'Gy'] + (['Gcnot'] if n > 1 else [])
    custom = {}; fac = kw.pop('factory', False); cust = kw.pop('custom', False); gidle = kw.pop('idle', False); avail = kw.pop('avail', None)
    nonstd = {}
    if fac: names.append('Gzr'); nonstd['Gzr'] = Zrot
    if cust: custom[('Gx', lines[-1])] = _op.FullDenseOp(noisy(1, 31) @ superop(UN['Gx'], B1)) if par != 'static unitary' else _op.StaticDenseOp(UN['Gh'], 'statevec')
    idle = None
    if gidle: idle = (rot(Z, .3) if par == 'static unitary' else (superop(rot(Z, .3), B1) @ np.diag([1, .99, .99, .99] if par in ('full', 'TP', 'static', 'CPTP') else [1., 1, 1, 1])))
    m = build_localnoise_model(n, names, nonstd, custom, availability=avail or ({'Gcnot': 'all-permutations'} if n > 1 else {}), qubit_labels=lines, parameterization=par, sim_type=sim, globalIdle=idle, **kw)
    if m.num_params(): m.from_vector(m.to_vector() + .02 * rng(11).randn(m.num_params()))
    d = 2 if par == 'static unitary' else 4
    r = Ref(list(lines), d, par == 'static unitary')
    dn = lambda o: np.array(o.todense())
    G = m.operation_blks['gates']
    for l in list(m.get_primitive_op_labels()):
        leaf = G[l] if l in G else G[l.name]
        r.prims[l] = embed(dn(leaf), [lines.index(q) for q in l.sslbls], n, d)
    if fac:
        for q in lines:
            for a in ('0.3', '1.7'):
                U = Zrot([a]); r.prims[Label(('Gzr', ';', a, q))] = embed(U if r.pure else superop(U, B1), [lines.index(q)], n, d)
    if gidle:
        one = dn(G['1QIdle']) if n > 1 else dn(m.operation_blks['layers']['globalIdle'])
        I = np.eye(d ** n)
        for i in range(n): I = embed(one, [i], n, d) @ I
        r.extra = lambda comps: (I, np.eye(d ** n))
    fill_spam(m, r, n)
    return m, r


def Zrot(args):
    if args is None: return np.eye(2)      # asked for the dimension only
    th = float(args[0]); return np.diag([np.exp(-.5j * th), np.exp(.5j * th)])


def fill_spam(m, r, n):
    for k, p in m.prep_blks['layers'].items(): r.preps[str(k)] = np.array(p.todense()).ravel()
    for k, p in m.povm_blks['layers'].items():
        r.povms[str(k)] = collections.OrderedDict((''.join(o) if isinstance(o, tuple) else str(o), np.array(p[o].todense()).ravel()) for o in p.keys())


def cloud(n, par, sim, lines=None, **kw):
    from pygsti.construction.nqnoiseconstruction import build_cloudnoise_model_from_hops_and_weights as build
    from pygsti.objects import Label
    from scipy.linalg import expm
    lines = tuple(lines or range(n)); B = {1: ppbasis(1), 2: ppbasis(2)}
    names = ['Gx', 'Gy'] + (['Gcnot'] if n > 1 else [])
    kw2 = dict(maxIdleWeight=1, maxSpamWeight=1, maxhops=0, extraWeight1Hops=0, extraGateWeight=0); kw2.update(kw)
    m = build(n, names, qubit_labels=lines, parameterization=par, sim_type=sim, **kw2)
    if m.num_params(): m.from_vector(m.to_vector() + .02 * rng(13).randn(m.num_params()))
    r = Ref(list(lines))
    for l in m.get_primitive_op_labels(): r.prims[l] = embed(superop(UN[l.name], B[len(l.sslbls)]), [lines.index(q) for q in l.sslbls], n)
    N = m.operation_blks['cloudnoise']; errg = kw2.get('errcomp_type', 'gates') == 'errorgens'
    L = m.operation_blks['layers']; dn = lambda o: np.array(o.todense() if not errg else o.todense())
    idle = np.array(L['globalIdle'].todense()) if 'globalIdle' in L else None
    addidle = kw2.get('addIdleNoiseToAllGates', True) and idle is not None
    E = np.eye(4 ** n)

    def extra(comps):
        if not comps: return (E, idle if idle is not None else E)
        if errg:
            g = np.zeros((4 ** n, 4 ** n))
            if addidle: g = g + dense(L['globalIdle'].errorgen)
            for c in comps:
                if c in N: g = g + dense(N[c])
            return (E, expm(g))
        M = idle if addidle else E
        for c in comps:
            if c in N: M = np.array(N[c].todense()) @ M
        return (E, M)
    r.extra = extra
    fill_spam(m, r, n)
    return m, r


def dense(o):
    M = o.todense() if hasattr(o, 'todense') else o
    return np.real(np.array(M))


# name -> (builder(sim), alphabet builder, simulators)
def FAMILY():
    F = collections.OrderedDict()
    for p in EXPLICIT: F['e1:' + p] = (lambda sim, p=p: explicit1(p, sim), ('matrix', 'map'))
    F['e2'] = (lambda sim: explicit2(sim), ('matrix', 'map'))
    F['l1:static'] = (lambda sim: local(1, 'static', sim, factory=True), ('matrix', 'map'))
    F['l1:su'] = (lambda sim: local(1, 'static unitary', sim, factory=True), ('matrix', 'map'))
    F['l2:full'] = (lambda sim: local(2, 'full', sim, lines=('x', 'y'), independent_gates=True, idle=True), ('matrix', 'map'))
    F['l2:TP'] = (lambda sim: local(2, 'TP', sim, lines=(7, 3), custom=True), ('matrix', 'map'))
    F['l2:CPTP'] = (lambda sim: local(2, 'CPTP', sim, ensure_composed_gates=True, idle=True), ('matrix', 'map'))
    F['l2:H+S'] = (lambda sim: local(2, 'H+S', sim, independent_gates=True, ensure_composed_gates=True), ('matrix', 'map'))
    F['l2:su'] = (lambda sim: local(2, 'static unitary', sim, idle=True, custom=True, factory=True), ('matrix', 'map'))
    F['l2:static'] = (lambda sim: local(2, 'static', sim, lines=('q1', 'q0'), idle=True, factory=True, avail={'Gx': '*', 'Gcnot': [('q0', 'q1')]}), ('matrix', 'map'))
    F['l3:su'] = (lambda sim: local(3, 'static unitary', sim, lines=('QB', 'QA', 'Q2')), ('map', 'matrix'))
    F['l3:TP'] = (lambda sim: local(3, 'TP', sim, idle=True), ('map',))
    F['c2:H+S'] = (lambda sim: cloud(2, 'H+S', sim), ('matrix', 'map'))
    F['c2:CPTP'] = (lambda sim: cloud(2, 'CPTP', sim, lines=('Q1', 'Q0'), maxIdleWeight=2, errcomp_type='errorgens'), ('matrix', 'map'))
    F['c2:noidle'] = (lambda sim: cloud(2, 'H+S', sim, addIdleNoiseToAllGates=False, extraWeight1Hops=1, spamtype='static'), ('matrix', 'map'))
    F['c2:zero'] = (lambda sim: cloud(2, 'H+S', sim, maxIdleWeight=0, spamtype='static'), ('matrix', 'map'))
    F['c2:full'] = (lambda sim: cloud(2, 'H+S+A', sim, maxhops=1, extraGateWeight=1, errcomp_type='errorgens', sparse=(sim == 'map')), ('matrix', 'map'))
    F['c3:H+S'] = (lambda sim: cloud(3, 'H+S', sim, maxhops=1), ('map',))
    return F


def alphabet(name, m, r):
    """layer labels to build circuits from (besides preps and POVMs)"""
    from pygsti.objects import Label
    from pygsti.objects.label import CircuitLabel
    if name.startswith('e1'):
        L = [Label('Gi'), Label('Gx'), Label('Gy'), Label(())] + [Label(str(k)) for k in m.instruments]
        L += [CircuitLabel('', (Label('Gx'), Label('Gy')), None, 2), CircuitLabel('', (Label('Gy'),), None, 3), CircuitLabel('', (CircuitLabel('', (Label('Gx'),), None, 2), Label('Gi')), None, 1)]
        return L
    if name == 'e2':
        L = [l for l in r.prims]
        L += [CircuitLabel('', (Label(('Gx', 'Qa')), Label(('Gcnot', 'Qa', 'Qb'))), ('Qa', 'Qb'), 2), CircuitLabel('', (L[0],), ('Qa',), 4)]
        return L
    one = [l for l in r.prims]
    par = [Label([a, b]) for a, b in itertools.combinations([l for l in one if len(l.sslbls) == 1], 2) if not set(a.sslbls) & set(b.sslbls)]
    if len(r.lines) == 3:
        two = [l for l in one if len(l.sslbls) == 2]
        par = par[::3] + [Label([a, b]) for a in two[::2] for b in one[:2 * 3:2] if len(b.sslbls) == 1 and not set(a.sslbls) & set(b.sslbls)]
    L = one + par + [Label(())]
    L += [CircuitLabel('', (one[0], one[-1]), tuple(r.lines), 2)]
    if not name.startswith('c'): L += [Label([CircuitLabel('', (one[0], one[0]), one[0].sslbls, 3), next(o for o in one if len(o.sslbls) == 1 and o.sslbls != one[0].sslbls)])] if len(r.lines) > 1 else []
    return L
