"""C07: a collection of data sets.  All histories of additions, queries, copies and storage over a family of member data
sets (differing in circuit order, outcome order, series length, repetitions), against a dictionary of plain rows."""
import copy, itertools, os, pickle, tempfile, shutil, io
from collections import OrderedDict as OD
LEVEL = 'model_checking'
RULE = ("all histories of <= 3 (4 in thorough; the third from a reduced set in quick) operations: adding any of 12 member data sets under one of three names (also "
        "replacing), refused additions, auxiliary data, copying (continuing with the copy or with the original), pickling, "
        "saving and loading; after every step every member, every aggregate of members and all earlier retrieved members are "
        "read back")
ASSUMPTIONS = ["bins with zero repetitions are not data"]
# (rows: circuit -> [(outcome, time, reps)], reps?, aux, comment)
Z = [('0', 0, 0)]
MEM = {
    'a': ([('A', [('0', 0, 3), ('1', 0, 4)]), ('B', [('0', 0, 5), ('1', 0, 6)])], True, {'A': {'k': 1}}, 'first'),
    'a2': ([('A', [('1', 0, 30), ('0', 0, 40)]), ('B', [('0', 0, 50), ('1', 0, 60)])], True, {'A': {'k': 2, 'm': 3}}, None),
    'rev': ([('B', [('1', 0, 7), ('0', 0, 8)]), ('A', [('1', 0, 9), ('0', 0, 1)])], True, {}, 'rev'),
    'long': ([('A', [('0', 0, 1), ('1', 1, 2), ('2', 2, 3)]), ('B', [('2', 0.5, 4), ('0', 1, 1), ('1', 1, 1), ('2', 9, 1)])], True, {'B': {'z': [1]}}, None),
    'short': ([('A', [('1', 0, 2)]), ('B', [('0', 3, 9)])], True, {}, 'short'),
    'none': ([('B', [('0', 0, 1), ('1', 2, 1)]), ('A', [('1', 1, 1), ('1', 2, 1)])], False, {}, None),
    'none1': ([('A', [('0', 0, 1), ('0', 2, 1)]), ('B', [('1', 1, 1), ('1', 2, 1)])], False, {'A': {'n': 0}}, None),
    'other': ([('A', [('up', 0, 5), ('0', 0, 2)]), ('B', [('down', 1, 2), ('up', 1, 2)])], True, {}, None),
    'zc': ([('A', [('0', 0, 0), ('1', 0, 1)]), ('B', [('1', 1, 1), ('0', 1, 0)])], True, {}, None),
    'mt': ([('A', []), ('B', [('1', 0, 5)])], True, {}, None),
    'one': ([('A', [('0', 0, 1), ('1', 1, 1)]), ('B', [('1', 1, 1), ('0', 2, 1)])], True, {}, None),
    'cut': ([('B', [('y', 0, 2), ('x', 0, 5)]), ('A', [('x', 0, 5), ('1', 0, 6)])], True, {}, None),
    'neg': ([('A', [('0', -1, 3), ('1', 5, 2)]), ('B', [('0', 5, 3), ('1', -1, 2)])], True, {}, None),
}


def circ(n):
    from pygsti.objects import Circuit
    return {'A': Circuit([('Gx', 0)], (0, 1)), 'B': Circuit([('Gc', 0, 1), ('Gy', 1)], (0, 1)), 'X': Circuit(('Gz',))}[n]


def member(nm):
    from pygsti.objects import DataSet
    rows, reps, aux, comment = MEM[nm]
    d = DataSet(comment=comment)
    if nm == 'cut':   # indices with holes and data outside the kept circuits
        d.add_raw_series_data(circ('X'), ['0', 'w'], [0, 0], [1, 1])
    for c, row in rows:
        d.add_raw_series_data(circ(c), [x[0] for x in row], [x[1] for x in row], [x[2] for x in row] if reps else None, aux=aux.get(c))
    d.done_adding_data()
    if nm == 'cut': d = d.truncate([circ('B'), circ('A')])
    return d


class Ref(object):
    def __init__(s): s.mem = OD(); s.aux = {}; s.order = None; s.comment = 'top'
    def copy(s): r = Ref(); r.mem = OD(s.mem); r.aux = copy.deepcopy(s.aux); r.order = s.order; r.comment = s.comment; return r
    def key(s): return repr((list(s.mem.items()), sorted(s.aux.items()), s.order, s.comment))


def summed(rows):
    """{circuit: {(time, outcome): total}} without zero bins"""
    out = {}
    for c, row in rows:
        s = out.setdefault(c, {})
        for o, t, n in row:
            if n: s[(float(t), (o,))] = s.get((float(t), (o,)), 0) + n
    return out


def series(rows): return {c: [((o,), float(t), float(n)) for o, t, n in row if n] for c, row in rows}


def readd(d):
    """{circuit: [(outcome, time, reps)]} without zero bins, checking internal agreement"""
    out = {}
    for c in d.keys():
        x = d[c]
        e = [tuple(y) for y in x]
        n = x.reps if x.reps is not None else [1] * len(e)
        assert len(x.time) == len(e) == len(n) == len(x.oli) == len(x.outcomes)
        cnt = {}
        for o, t, m in e:
            if m: cnt[o] = cnt.get(o, 0) + m
        assert {k: v for k, v in dict(x.counts).items() if v} == cnt, ('counts', dict(x.counts), cnt)
        assert x.total == sum(cnt.values())
        out[c] = [y for y in e if y[2]]
    return out


def compare(m, r, ctx, h):
    ck = lambda cond, what, info=None: ctx.check(cond, '%s:%s' % (what, h), lambda: 'after %s, %s: %r' % (h, what, info))
    names = list(r.mem)
    ck(list(m.keys()) == names and list(m) == names and len(m) == len(names), 'names', list(m.keys()))
    ck(all((n in m) == (n in r.mem) for n in 'xyzw'), 'containment')
    if names:
        ck(list(m.cirIndex.keys()) == [circ(c) for c in r.order] and [c.line_labels for c in m.cirIndex] == [(0, 1)] * len(r.order), 'circuits', list(m.cirIndex))
        ols = set((o,) for nm in r.mem.values() for _, row in MEM[nm][0] for o, _, _ in row)
        ck(ols <= set(m.get_outcome_labels()) and len(set(m.olIndex.values())) == len(m.olIndex), 'outcome labels', m.olIndex)
    ck(m.comment == r.comment, 'comment', m.comment)
    its = list(m.items()); vals = list(m.values())
    ck([n for n, _ in its] == names and len(vals) == len(names), 'items', its)
    for i, n in enumerate(names):
        want = {circ(c): v for c, v in series(MEM[r.mem[n]][0]).items()}
        for how, d in (('[]', m[n]), ('items', its[i][1]), ('values', vals[i])):
            got = readd(d)
            ck(got == want, 'member %s by %s' % (n, how), (got, want))
            ck(d.bStatic and d.comment == MEM[r.mem[n]][3], 'config %s by %s' % (n, how), d.comment)
            ck({c: dict(d[circ(c)].aux) for c in 'AB'} == {c: r.aux.get(c, {}) for c in 'AB'}, 'aux %s by %s' % (n, how), {c: d[circ(c)].aux for c in 'AB'})
        ck(m.comments[n] == MEM[r.mem[n]][3], 'comments ' + n, m.comments)
    for k in range(1, len(names) + 1):
        for sub in itertools.permutations(names, k):
            if k == 3 and sub != tuple(names): continue
            d = m.get_datasets_aggregate(*sub)
            got = {c: {} for c in d.keys()}
            for c, row in readd(d).items():
                last = None
                for o, t, n in row:
                    got[c][(t, o)] = got[c].get((t, o), 0) + n
                    if last is not None and t < last: ck(False, 'aggregate times %s' % (sub,), row)
                    last = t
            want = {circ(c): {} for c in r.order}
            for n in sub:
                for c, s in summed(MEM[r.mem[n]][0]).items():
                    for kk, v in s.items(): want[circ(c)][kk] = want[circ(c)].get(kk, 0) + v
            ck(got == want, 'aggregate %s' % (sub,), (got, want))
    for bad in ((), ('nosuch',), tuple(names[:1]) + ('nosuch',)):
        try: m.get_datasets_aggregate(*bad); ok = False
        except ValueError: ok = True
        ck(ok, 'aggregate of %s refused' % (bad,))
    str(m)


def operations(r, few=False):
    for nm in (MEM if not few else ('a2', 'rev', 'long', 'none', 'other')):
        for n in ('x', 'y', 'z'):
            if n == 'z' and len(r.mem) < 2: continue
            if n == 'y' and not r.mem: continue
            yield 'add', n, nm
    yield 'noaux', 'w', 'long'
    yield 'badadd', 'editable'
    yield 'badadd', 'mismatch'
    yield 'aux', 'A', {'new': 1}
    yield 'copy', 'on'
    yield 'copy', 'back'
    yield 'pickle',
    yield 'deepcopy',
    yield 'file', ''
    yield 'file', '.gz'
    yield 'stream',


def step(m, r, op, tmp):
    """(new real, new ref, object that must stay as it was with its reference) or None"""
    from pygsti.objects import MultiDataSet, DataSet
    k = op[0]; r2 = r.copy()
    if k in ('add', 'noaux'):
        d = member(op[2]); before = readd(d); baux = copy.deepcopy(dict(d.auxInfo))
        if k == 'add' and op[1] == 'x': m[op[1]] = d
        else: m.add_dataset(op[1], d, k == 'add')
        if r2.order is None: r2.order = tuple(c for c, _ in MEM[op[2]][0])
        r2.mem[op[1]] = op[2]
        if k == 'add':
            for c, a in MEM[op[2]][2].items(): r2.aux.setdefault(c, {}).update(a)
        return m, r2, (d, before, baux)
    if k == 'badadd':
        d = DataSet()
        d.add_count_dict(circ('A'), {'0': 1, 'bad': 3})
        if op[1] == 'mismatch': d.add_count_dict(circ('X'), {'0': 1}); d.done_adding_data()
        else: d.add_count_dict(circ('B'), {'0': 1})
        if op[1] == 'mismatch' and r.order is None: return m, r2, None
        try: m.add_dataset('bad', d)
        except ValueError: return m, r2, None
        raise RuntimeError('an unsuitable data set was accepted')
    if k == 'aux': m.add_auxiliary_info(circ(op[1]), op[2]); r2.aux[op[1]] = dict(op[2]); return m, r2, None
    if k == 'copy':
        c = m.copy(); r2.comment = r.comment + ' copy'
        if op[1] == 'on': return c, r2, ('mds', m, r)
        return m, r, ('mds', c, r2)
    if k == 'pickle': return pickle.loads(pickle.dumps(m)), r2, ('mds', m, r)
    if k == 'deepcopy': return copy.deepcopy(m), r2, ('mds', m, r)
    if k == 'file':
        f = os.path.join(tmp, 'm' + op[1]); m.save(f)
        m2 = MultiDataSet(fileToLoadFrom=f) if op[1] else MultiDataSet()
        if not op[1]: m2.load(f)
        os.remove(f); return m2, r2, ('mds', m, r)
    if k == 'stream':
        f = io.BytesIO(); m.save(f); m.save(f); f.seek(0); MultiDataSet().load(f); return MultiDataSet(fileToLoadFrom=f), r2, ('mds', m, r)


def shards(tier):
    n = len(list(operations(Ref()))); return [(i, ols) for i in range(n) for ols in (0, 1)]


def run(shard, ctx):
    from pygsti.objects import MultiDataSet
    i0, ols = shard
    depth = 3 if ctx.tier == 'quick' else 4
    tmp = tempfile.mkdtemp(prefix='c07-')
    seen = set()

    def history(ops):
        """replay a history on fresh objects (the real collection is edited in place)"""
        m = MultiDataSet(comment='top', outcomeLabels=['1', '0'] if ols else None); r = Ref(); keep = []
        for op in ops:
            if r.mem: keep.append(('ds', m[list(r.mem)[-1]], dict((circ(c), v) for c, v in series(MEM[list(r.mem.values())[-1]][0]).items())))
            m, r, x = step(m, r, op, tmp)
            if x is not None: keep.append(x)
        return m, r, keep

    def explore(ops, cands):
        for op in cands:
            hs = ops + [op]; h = 'ols%d ' % ols + ' ; '.join(map(repr, hs)); ctx.where = h; ctx.trans()
            m, r, keep = history(hs)
            compare(m, r, ctx, h); ctx.trace()
            for x in keep:
                if x[0] == 'mds': compare(x[1], x[2], ctx, h + ' (original)')
                elif x[0] == 'ds': ctx.check(readd(x[1]) == x[2], 'retrieved:' + h, lambda: '%s: a member retrieved earlier now reads %r, was %r' % (h, readd(x[1]), x[2]))
                else: ctx.check(readd(x[0]) == x[1] and dict(x[0].auxInfo) == x[2], 'added:' + h, lambda: '%s: the data set that was added now reads %r / %r' % (h, readd(x[0]), dict(x[0].auxInfo)))
            k = (r.key(), len(hs), op[0] if op[0] not in ('add', 'aux') else '')
            if k in seen: continue
            seen.add(k); ctx.state(r.key())
            if len(hs) < depth: explore(hs, list(operations(r, len(hs) == 2 and ctx.tier == 'quick')))
    try:
        first = list(operations(Ref()))[i0]
        explore([], [first]); ctx.sample('histories starting with %r' % (first,))
    finally:
        shutil.rmtree(tmp)
