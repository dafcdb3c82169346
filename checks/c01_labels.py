"""C01: labels.  Every label of a small alphabet (nested to depth 2) is built from a plain specification and every
observation / rewriting of it is compared with the same thing computed on the specification."""
import pickle, copy, itertools
LEVEL = 'exploration'
RULE = ("all labels over names x state-space labels x args x times, all 0/1/2-component layers and all 1/2-layer "
        "sub-circuits over a sub-alphabet, nested once more; all pairs for equality/hash; distinct = distinct label "
        "contents (time included) or ordered pair of classes")

NAMES = ('Gx', 'Gxy', 'Iz', 'rho0')
SSL = (None, (0,), (1,), ('0',), ('Q1',), ('qa',), (0, 1), (1, 0), (0, 'Q1'), (2, 0, 1))
ARGS = ((), ('1',), ('1.4', 'a/2'), (1, 2.5))
TIMES = (0.0, 1.0, 2.5)


def norm_ssl(s):
    if s is None: return None
    return tuple(int(x) if (isinstance(x, int) or x.isdigit()) else x for x in s)


# specs:  ('g', name, ssl|None, args, time)   ('l', comps, args, time|None)   ('c', name, layers, ssl, reps, time|None)
def build(sp):
    from pygsti.objects.label import Label, CircuitLabel, LabelTupTup
    if sp[0] == 'g': return Label(sp[1], sp[2], sp[4], sp[3] or None)
    if sp[0] == 'l':
        return Label(tuple(build(c) for c in sp[1]), time=sp[3], args=sp[2] or None)
    return CircuitLabel(sp[1], tuple(build(c) for c in sp[2]), sp[3], sp[4], sp[5])


def time_of(sp):
    if sp[0] == 'g': return sp[4]
    t = sp[3] if sp[0] == 'l' else sp[5]
    if t is not None: return t
    if sp[0] == 'l': return max([time_of(c) for c in sp[1]]) if sp[1] else 0.0
    return sum(time_of(c) for c in sp[2]) if sp[2] else 0.0


def ssl_of(sp):
    if sp[0] == 'g': return norm_ssl(sp[2])
    if sp[0] == 'c': return sp[3]
    if not sp[1]: return None
    out = set()
    for c in sp[1]:
        s = ssl_of(c)
        if s is None: return None
        out.update(s)
    return out  # as a set


def content(sp):
    """content without the times"""
    if sp[0] == 'g': return ('g', sp[1], norm_ssl(sp[2]), sp[3])
    if sp[0] == 'l': return ('l', tuple(content(c) for c in sp[1]), sp[2])
    return ('c', sp[1], tuple(content(c) for c in sp[2]), sp[3], sp[4])


def times(sp):
    if sp[0] == 'g': return (time_of(sp),)
    return (time_of(sp),) + tuple(times(c) for c in (sp[1] if sp[0] == 'l' else sp[2]))


def observe(l):
    """(content, times) read back through the public API"""
    from pygsti.objects import label as L
    if isinstance(l, L.CircuitLabel):
        cs = [observe(c) for c in l.components]
        return ('c', l.name, tuple(c[0] for c in cs), l.sslbls, l.reps), (l.time,) + tuple(c[1] for c in cs)
    if l.issimple():
        return ('g', l.name, l.sslbls, tuple(l.args)), (l.time,)
    cs = [observe(c) for c in l.components]
    return ('l', tuple(c[0] for c in cs), tuple(l.args)), (l.time,) + tuple(c[1] for c in cs)


def rename(sp, a, b):
    if sp[0] == 'g': return ('g', b if sp[1] == a else sp[1]) + sp[2:]
    if sp[0] == 'l': return ('l', tuple(rename(c, a, b) for c in sp[1]), sp[2], time_of(sp))
    return ('c', sp[1], tuple(rename(c, a, b) for c in sp[2])) + sp[3:5] + (time_of(sp),)


def remap(sp, f):
    if sp[0] == 'g': return sp[:2] + ((tuple(f(x) for x in norm_ssl(sp[2])) if sp[2] is not None else None),) + sp[3:]
    if sp[0] == 'l': return ('l', tuple(remap(c, f) for c in sp[1]), sp[2], time_of(sp))
    return ('c', sp[1], tuple(remap(c, f) for c in sp[2]), tuple(f(x) for x in sp[3]), sp[4], time_of(sp))


def expand(sp):
    """list of layers, each a list of simple contents"""
    if sp[0] == 'g': return [[content(sp)]]
    if sp[0] == 'c':
        out = []
        for c in sp[2]: out += expand(c)
        return out * sp[4]
    ex = [expand(c) for c in sp[1]]
    d = max([len(e) for e in ex]) if ex else 1
    if not ex: return [[]]
    return [[x for e in ex if i < len(e) for x in e[i]] for i in range(d)]


def depth(sp):
    if sp[0] == 'g': return 1
    if sp[0] == 'c': return sum(depth(c) for c in sp[2]) * sp[4]
    return max([depth(c) for c in sp[1]]) if sp[1] else 1


def simple_specs(full=True):
    out = []
    for n in (NAMES if full else NAMES[:2]):
        for s in SSL:
            for a in ARGS:
                for t in TIMES:
                    out.append(('g', n, s, a, t))
    return out


SUB = [('g', 'Gx', (0,), (), 0.0), ('g', 'Gxy', (1,), (), 1.0), ('g', 'Gx', None, (), 0.0), ('g', 'Iz', (3,), ('1',), 2.5),
       ('g', 'Gxy', (0, 1), ('1.4', 'a/2'), 0.0)]


def mid_specs():
    out = [('l', (), (), None), ('l', (), (), 1.0)]
    for k in (2, 3):
        for cs in itertools.product(SUB[:4] if k == 3 else SUB, repeat=k):
            for args in ((), ('7',), ('7', 3)):
                for t in (None, 4.0):
                    if k == 3 and (args or t): continue
                    out.append(('l', cs, args, t))
    for k in (0, 1, 2):
        for cs in itertools.product(SUB[:3], repeat=k):
            for reps in (0, 1, 2, 3):
                for nm in ('', 'Csub'):
                    for ssl in ((0, 1), (0, 1, 'Q1')):
                        for t in (None, 4.0):
                            out.append(('c', nm, cs, ssl, reps, t))
    return out


def deep_specs():
    lay = ('l', (SUB[0], SUB[1]), (), None)
    sc1 = ('c', '', (SUB[0], SUB[1]), (0, 1), 2, None)
    sc2 = ('c', '', (lay, SUB[0], ('l', (), (), None)), (0, 1), 1, None)
    sc3 = ('c', '', (('g', 'Gx', (2,), (), 0.0),) * 3, (2,), 2, None)
    al = [SUB[0], lay, sc1, sc2, sc3, ('g', 'Gy', (3,), (), 0.0)]
    out = []
    for k in (2, 3):
        for cs in itertools.product(al, repeat=k): out.append(('l', cs, (), None))
    for k in (1, 2):
        for cs in itertools.product(al, repeat=k):
            for reps in (1, 2): out.append(('c', '', cs, (0, 1, 2, 3), reps, None))
    return out


def shards(tier):
    n = 8
    out = [('simple', i, n) for i in range(n)] + [('mid', i, n) for i in range(n)] + [('deep', i, n) for i in range(n)]
    out += [('pairs', i, n) for i in range(n)] + [('ctor', 0, 1), ('crossshape', 0, 1)]
    return out


def one(sp, ctx):
    from pygsti.objects.label import Label
    from pygsti.io import json as pj, msgpack as pm
    from pygsti.io.circuitparser import slowcircuitparser, CircuitParser
    ctx.where = repr(sp)
    l = build(sp)
    c, t = content(sp), times(sp)

    def same(x, what, cc=c, tt=t, typ=None):
        oc, ot = observe(x)
        ctx.check(oc == cc, 'content:%s:%r' % (what, sp), 'content is %r, should be %r' % (oc, cc))
        ctx.check(ot == tt, 'time:%s:%r' % (what, sp), 'times are %r, should be %r' % (ot, tt))
        if typ: ctx.check(type(x) is typ, 'type:%s:%r' % (what, sp), '%s is not %s' % (type(x), typ))

    ctx.ev((c, t)); ctx.sample(sp)
    before = (repr(l), hash(l))
    same(l, 'constructed')
    s = ssl_of(sp)
    ctx.check((set(l.sslbls) if sp[0] == 'l' and s is not None else l.sslbls) == s and l.qubits == l.sslbls,
              'sslbls:%r' % (sp,), 'sslbls %r should be %r' % (l.sslbls, s))
    if sp[0] == 'l' and s is not None:
        ctx.check(len(l.sslbls) == len(s), 'sslbls-dup:%r' % (sp,), 'duplicated %r' % (l.sslbls,))
    ctx.check(l.number_of_qubits == (None if s is None else len(s)), 'nq:%r' % (sp,), 'number_of_qubits %r' % l.number_of_qubits)
    ctx.check(l.reps == (sp[4] if sp[0] == 'c' else 1), 'reps:%r' % (sp,), l.reps)
    ctx.check(l.depth() == depth(sp), 'depth:%r' % (sp,), 'depth %r should be %r' % (l.depth(), depth(sp)))
    ctx.check(l.issimple() == (sp[0] != 'l'), 'simple:%r' % (sp,), l.issimple())
    for pre in ('G', 'Gx', 'Gxy', 'I', 'rho', 'Z'):
        exp = sp[1].startswith(pre) if sp[0] != 'l' else None
        if sp[0] != 'l': ctx.check(l.has_prefix(pre) == exp, 'prefix:%r' % (sp,), pre)
        else:
            ns = [x[1] if x[0] != 'l' else None for x in sp[1]]
            if None not in ns:
                ctx.check(l.has_prefix(pre) == all(n.startswith(pre) for n in ns) and
                          l.has_prefix(pre, 'any') == any(n.startswith(pre) for n in ns), 'prefix:%r' % (sp,), pre)
    same(Label(l), 'Label(label)')
    for p in range(pickle.HIGHEST_PROTOCOL + 1): same(pickle.loads(pickle.dumps(l, p)), 'pickle', typ=type(l))
    same(copy.copy(l), 'copy', typ=type(l)); same(copy.deepcopy(l), 'deepcopy', typ=type(l))
    r = l.__pygsti_reduce__(); same(r[0](*r[1]), 'reduce', typ=type(l))
    same(pj.loads(pj.dumps(l)), 'json', typ=type(l))
    same(pm.loads(pm.dumps(l)), 'msgpack', typ=type(l))
    x = pickle.loads(pickle.dumps(l))
    ctx.check(x == l and not (x != l) and hash(x) == hash(l) and str(x) == str(l), 'eqhash:%r' % (sp,), 'reconstructed label differs')
    # native form: labels without arguments and sub-circuits
    def plain(q): return q[0] != 'c' and not (q[2] if q[0] == 'l' else q[3]) and all(plain(y) and y[2] is not None for y in (q[1] if q[0] == 'l' else ()))
    if plain(sp):
        ctx.check(observe(Label(l.tonative()))[0] == c, 'native:%r' % (sp,), 'native form %r' % (l.tonative(),))
    # text form
    def textok(q):
        if q[0] == 'g': return all(isinstance(a, str) for a in q[3]) and q[1] != 'rho0'
        if q[0] == 'l': return not q[2] and q[3] is None and all(textok(y) for y in q[1]) and len(q[1]) != 1
        return q[1] == '' and time_of(q) == 0 and all(textok(y) and time_of(y) == 0 for y in q[2]) and len(q[2]) > 0 and q[4] > 0
    if textok(sp):
        for nm, parse in (('slow', slowcircuitparser.parse_circuit), ('std', CircuitParser().parse)):
            got, _ = parse(str(l), True, True)
            if sp[0] != 'c' and not any(y[0] == 'c' for y in (sp[1] if sp[0] == 'l' else ())):
                ctx.check(len(got) == 1, 'text-n:%r' % (sp,), '%r parsed to %r' % (str(l), got))
                same(got[0], 'text-' + nm)
            else:
                e = [sorted(map(repr, (observe(k)[0] for k in lay.components))) for g in got for lay in g.expand_subcircuits()]
                ctx.check(e == [sorted(map(repr, x)) for x in expand(sp)], 'text-exp:%r' % (sp,),
                          '%r parsed to %r' % (str(l), got))
    # rewriting
    for a, b in (('Gx', 'Gz'), ('Gxy', 'Gx'), ('Gnone', 'Gz'), ('Gx', 'Gx')):
        y = l.replacename(a, b); z = rename(sp, a, b)
        same(y, 'replacename', content(z), times(z), type(l))
        ctx.check(hash(y) == hash(build(z)) and y == build(z), 'replacename-eq:%r' % (sp,), repr(y))
    for nm, m in (('swap', {0: 1, 1: 0, 2: 2, 3: 3, 'Q1': 'Q1', 'qa': 'Q1'}), ('shift', {0: 5, 1: 6, 2: 7, 3: 0, 'Q1': 'Q2', 'qa': 8})):
        z = remap(sp, lambda q: m[q])
        for how, mm in (('dict', m), ('fn', lambda q: m[q])):
            y = l.map_state_space_labels(mm)
            same(y, 'map-%s-%s' % (nm, how), content(z), times(z), type(l))
            ctx.check(hash(y) == hash(build(z)) and y == build(z), 'map-eq:%r' % (sp,), repr(y))
    if sp[0] == 'g':
        z = ('g', sp[1] + '_x') + sp[2:]
        same(l + '_x', 'add', content(z), times(z), type(l))
    got = [[observe(k)[0] for k in lay.components] for lay in l.expand_subcircuits()] if not (sp[0] == 'l' and sp[2]) else None
    if got is not None:
        ctx.check(got == expand(sp), 'expand:%r' % (sp,), 'expanded to %r, should be %r' % (got, expand(sp)))
    if sp[0] != 'g':
        for comp in (sp[1] if sp[0] == 'l' else sp[2]):
            ctx.check(build(comp) in l, 'contains:%r' % (sp,), 'component not "in" label')
            for sub in (comp[1] if comp[0] == 'l' else comp[2] if comp[0] == 'c' else ()):
                ctx.check(build(sub) in l, 'contains2:%r' % (sp,), 'nested component not "in" label')
        ctx.check(Label('Gnot', 7) not in l, 'notcontains:%r' % (sp,), 'foreign label "in" label')
    ctx.check((repr(l), hash(l)) == before, 'mutated:%r' % (sp,), 'label changed')


def run(shard, ctx):
    from pygsti.objects.label import Label
    kind, i, n = shard
    if kind in ('simple', 'mid', 'deep'):
        specs = {'simple': simple_specs, 'mid': mid_specs, 'deep': deep_specs}[kind]()
        for sp in specs[i::n]: one(sp, ctx)
    elif kind == 'pairs':
        al = [s for s in simple_specs(False) if s[4] in (0.0, 1.0)] + mid_specs()[:150] + [('c', nm, cs, ssl, r, None) for nm in ('', 'Csub') for cs in ((), (SUB[0],), (SUB[0], SUB[1])) for ssl in ((0, 1), (0, 1, 'Q1')) for r in (1, 2)] + deep_specs()[::7]
        built = [(content(s), build(s), s) for s in al]
        for j in range(i, len(built), n):
            cj, lj, sj = built[j]
            for ck, lk, sk in built:
                ctx.where = '%r vs %r' % (sj, sk)
                eq = lj == lk
                ctx.check(bool(eq) == (cj == ck) and (lj != lk) == (cj != ck), 'eq:%r|%r' % (sj, sk), 'equality is %r' % eq)
                if cj == ck: ctx.check(hash(lj) == hash(lk), 'hash:%r|%r' % (sj, sk), 'equal labels, different hash')
                ctx.ev((min(j, 10**9), sk[0], cj == ck))
            d = {l: None for _, l, _ in built}
            ctx.check(len(d) == len(set(c for c, _, _ in built)), 'dict', 'labels as dict keys: %d distinct' % len(d))
    elif kind == 'ctor':
        # the tuple/list constructor forms denote the same labels
        for nm in NAMES:
            for s in SSL:
                for a in ((), ('1',), ('1.4', 'a/2')):
                    for t in TIMES:
                        sp = ('g', nm, s, a, t); ctx.where = 'ctor %r' % (sp,)
                        ss = tuple(s or ())
                        forms = []
                        targs = tuple(';' + x for x in a); targs2 = tuple(z for x in a for z in (';', x))
                        tts = [(), ('!%f' % t,), ('!', t)] if t == 0 else [('!%f' % t,), ('!', t)]
                        for ta in (targs, targs2):
                            for tt in tts:
                                forms += [(nm,) + ta + ss + tt, (nm,) + tt + ss + ta, [nm] + list(ss + ta + tt)]
                        for f in forms:
                            l = Label(f); oc = observe(l)
                            ctx.ev(repr(f))
                            ctx.check(oc == (content(sp), times(sp)), 'ctor:%r' % (f,), 'built %r' % (oc,))
                        if not a:
                            l = Label((nm,) + ss, time=t); ctx.check(observe(l) == (content(sp), times(sp)), 'ctor-time:%r' % (sp,), repr(observe(l)))
                        else:
                            l = Label((nm,) + ss, time=t, args=list(a)); ctx.check(observe(l) == (content(sp), times(sp)), 'ctor-args:%r' % (sp,), repr(observe(l)))
                        if s and len(s) == 1:
                            l = Label(nm, s[0], t, a or None); ctx.check(observe(l) == (content(sp), times(sp)), 'ctor-bare:%r' % (sp,), repr(observe(l)))
                        l = Label(nm, list(s) if s else s, t, list(a) or None)
                        ctx.check(observe(l) == (content(sp), times(sp)), 'ctor-list:%r' % (sp,), repr(observe(l)))
                        # a one-component layer is the component
                        if not a: ctx.check(observe(Label((Label(nm, s, t),))) == (content(sp), times(sp)), 'ctor-1:%r' % (sp,), 'one-tuple')
        for bad in (lambda: Label(3), lambda: Label('Gx', 0, 5), lambda: Label('Gx', (1.5,)), lambda: Label('Gx', 0, '1')):
            try: l = bad()
            except AssertionError: ctx.ev('refused'); continue
            ctx.fail('ctor-bad', 'invalid label accepted: %r' % (l,))
    else:
        # labels of different shapes whose internal tuples coincide
        a, b = Label('Gx', (3, 'a', 0)), Label('Gx', 0, args=('a',))
        ctx.where = 'Gx:3:a:0 vs Gx;a:0'; ctx.ev('cross')
        ctx.check(a != b, 'eq-crossshape:Gx:3:a:0|Gx;a:0', 'labels Gx:3:a:0 and Gx;a:0 compare equal')
