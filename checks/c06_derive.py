"""C06: derived and stored data sets.  All chains of derivation / storage operations from a family of data sets; the result
is compared with the same chain applied to plain rows (outcome, time, repetitions), and every ancestor must stay as it was."""
import copy, itertools, os, pickle, tempfile, shutil, io
from collections import OrderedDict
LEVEL = 'model_checking'
RULE = ("all chains of length <= 2 (3 in thorough) over 26 derivation and storage operations (all argument choices) from 14 initial data "
        "sets x {editable, static}; a state is (data held by the reference, static or not); every transition is executed on the "
        "real data set, the result read back and every ancestor re-read")
ASSUMPTIONS = ["binary files are written to a scratch folder"]
OD = OrderedDict


def circs():
    from pygsti.objects import Circuit
    return {'E': Circuit([], (0, 1)), 'A': Circuit([('Gx', 0), ('Gy', 1)], (0, 1)), 'B': Circuit([('Gx', 0)], (0, 1)),
            'C': Circuit([[('Gx', 0), ('Gy', 1)], ('Gc', 0, 1)], (0, 1)), 'D': Circuit([[('Gx', 0, ), ('Gx', 1)]], (0, 1))}


KINDS = {
    'plain': [('A', '00 01 10 11'.split(), [0] * 4, [5, 6, 7, 8]), ('B', ['00', '11'], [0, 0], [3, 4]), ('E', ['10'], [0], [9])],
    'noreps': [('A', ['01', '00', '01', '11'], [0, 0, 0.5, 2], None), ('B', ['00', '00'], [1, 2], None), ('D', ['10'], [0.5], None)],
    'time': [('A', ['00', '01', '00', '10', '11'], [0, 0, 1, 1, 2.5], [1, 2, 3, 4, 5]), ('D', ['01', '00'], [1, 2.5], [2, 7]), ('B', ['11', '11'], [2.5, 2.5], [1, 2])],
    'zeros': [('B', ['00', '01', '10'], [0, 0, 0], [0, 5, 0]), ('C', ['11', '00'], [0, 1], [0, 0]), ('A', ['00', '00'], [0, 1], [1, 0])],
    'gaps': [('C', ['10', '10'], [3, 1], [2, 3]), ('A', ['00', '01'], [1, 3], [1, 1])],
    'frac': [('A', ['00', '11'], [0, 0], [0.5, 1.25]), ('B', ['11'], [0], [2.5])],
    'empty': [],
    'one': [('E', ['11'], [7], [1])],
}
AUX = {'plain': {'A': {'n': [1, 2]}, 'E': {'t': 'x'}}, 'time': {'D': {'k': 1}}}


class Ref(object):
    def __init__(s): s.ols = []; s.rows = OD(); s.reps = False; s.aux = {}; s.static = False; s.comment = ''; s.dead = False

    def copy(s):
        r = copy.copy(s); r.ols = list(s.ols); r.rows = OD((k, list(v)) for k, v in s.rows.items()); r.aux = copy.deepcopy(s.aux); return r

    def key(s): return repr((s.ols, [(k.str, k.line_labels, v) for k, v in s.rows.items()], s.reps, sorted((k.str, v) for k, v in s.aux.items()), s.static, s.comment))


def initial(kind, static, declared):
    from pygsti.objects import DataSet
    C = circs(); r = Ref(); r.comment = 'c1 ' + kind
    d = DataSet(outcomeLabels=['11', '00', '01', '10'] if declared else None, comment=r.comment)
    if declared: r.ols = [(o,) for o in ('11', '00', '01', '10')]
    for c, ol, t, n in KINDS[kind]:
        d.add_raw_series_data(C[c], ol, t, n, aux=AUX.get(kind, {}).get(c))
        r.rows[C[c]] = [((o,), float(tt), float(1 if n is None else n[i])) for i, (o, tt) in enumerate(zip(ol, t))]
        r.reps = r.reps or n is not None
        for o in ol:
            if (o,) not in r.ols: r.ols.append((o,))
        if c in AUX.get(kind, {}): r.aux[C[c]] = dict(AUX[kind][c])
    if static: d.done_adding_data(); r.static = True
    return r, d


def used(rows): return [o for o in OD((x[0], 1) for v in rows.values() for x in v)]


def groups(row):
    out = []
    for o, t, n in row:
        if out and out[-1][0] == t: out[-1][1][o] = out[-1][1].get(o, 0) + n
        else: out.append((t, OD([(o, n)])))
    return out


MERGES = [{'0': ['00', '01'], '1': ['10', '11']}, {'x': ['00', '11'], ('y', 'z'): ['01', '10', 'never']},
          {'00': ['11'], '11': ['00'], '01': ['10', '01']}, {'all': ['11', '10', '01', '00']}]


def operations(r):
    cs = list(r.rows)
    yield ('truncate', 'rev', 'raise')
    yield ('truncate', 'first', 'raise')
    yield ('truncate', 'last+missing', 'ignore')
    yield ('truncate', 'twice', 'warn')
    yield ('truncate', 'none', 'raise')
    for a in ((0.5, 2.5, None), (1, 2.6, 9), (-1, 99, 0), (5, 6, None)): yield ('slice',) + a
    for i in range(len(MERGES)):
        for z in (True, False): yield ('merge', i, z)
    yield ('cmerge', 1, True)
    yield ('cmerge', 0, False)
    yield ('filter', (0,), None)
    yield ('filter', (1,), ('Q',))
    yield ('process', 'cat', True)
    yield ('process', 'cat', False)
    yield ('process', 'drop', True)
    yield ('trim',)
    yield ('thaw',)
    yield ('freeze',)
    yield ('copy',)
    yield ('pickle',)
    yield ('file', '')
    yield ('file', '.gz')
    yield ('stream',)
    yield ('addto',)


def flip(kind):
    """circuit rewriting functions"""
    from pygsti.objects import Circuit
    def f(c):
        if kind == 'drop': return None if len(c) == 1 else c
        return Circuit([('Gz', c.line_labels[0])], c.line_labels) if len(c) <= 1 else c + c
    return f


def select(r, how):
    from pygsti.objects import Circuit
    cs = list(r.rows)
    return {'rev': cs[::-1], 'first': [tuple(c) if False else c for c in cs[:1]], 'last+missing': cs[-1:] + [Circuit(('Gnone',))], 'twice': cs[1:2] + cs[:1] + cs[1:2], 'none': []}[how]


def mout(o, i):
    for new, olds in MERGES[i].items():
        if o in [(x,) for x in olds]: return (new,) if isinstance(new, str) else new
    return None


def apply_ref(r, op):
    """new reference, or None when the operation must be refused"""
    from pygsti.objects import Circuit
    n = r.copy(); k = op[0]
    if k == 'truncate':
        cs = [c for c in select(r, op[1]) if c in r.rows]
        n.rows = OD((c, r.rows[c]) for c in cs); n.aux = None; n.ols = None; n.comment = None
        if not r.static and not n.rows: n.reps = False
        if r.static: n.static = True
        return n
    if k == 'slice':
        a, b, to = op[1:]
        n.rows = OD(); n.reps = True; n.static = True; n.aux = None; n.comment = None
        for c, row in r.rows.items():
            row = [x for x in row if a <= x[1] < b]
            if to is not None:
                s = OD((o, 0) for o in r.ols)
                for o, _, m in row: s[o] += m
                row = [(o, float(to), m) for o, m in s.items() if m > 0]
            n.rows[c] = row
        if not n.rows: n.reps = False
        return n
    if k in ('merge', 'cmerge', 'filter'):
        zero = True if k == 'filter' else op[2]
        if k == 'filter':
            news = []
            if any(len(o) != 1 or len(o[0]) != 2 for o in r.ols): return None
            m = {o: (o[0][op[1][0]],) for o in r.ols}
            news = sorted(set(m.values()))
        else:
            m = {o: mout(o, op[1]) for o in r.ols}
            if any(v is None for v in m.values()): return None
            news = [(x,) if isinstance(x, str) else x for x in MERGES[op[1]]]
        n.rows = OD()
        for c, row in r.rows.items():
            new = []
            for t, g in groups(row):
                s = OD((o, 0.0) for o in news)
                for o, v in g.items(): s[m[o]] += v
                new += [(o, t, v) for o, v in s.items() if zero or v != 0]
            n.rows[c] = new
        n.ols = news; n.reps = True; n.static = True; n.comment = None
        if k != 'cmerge': n.aux = None
        if k == 'filter':
            q = op[1][0]; new = OD()
            for c, row in n.rows.items():
                if not c.line_labels == (0, 1): return None
                labs = []; bad = False
                for l in c.layertup:
                    keep = [x for x in l.components if set(x.sslbls) <= {q}]
                    if any(q in x.sslbls and len(x.sslbls) > 1 for x in l.components): bad = True
                    labs.append([(x.name, op[2][0] if op[2] else q) for x in keep])
                if bad: continue
                cc = Circuit(labs, op[2] or op[1])
                new[cc] = new.get(cc, []) + row
            n.rows = new
        return n
    if k == 'process':
        if r.static: return None
        f = flip(op[1]); n.rows = OD(); n.aux = {}
        for c, row in r.rows.items():
            c2 = f(c)
            if c2 is None: continue
            n.rows[c2] = (n.rows[c2] + row) if (op[2] and c2 in n.rows) else row
        for c in (r.rows if r.aux is not None else ()):
            c2 = f(c)
            if c2 is None: continue
            if op[2] and c2 in n.aux: n.aux[c2].update(r.aux.get(c, {}))
            else: n.aux[c2] = dict(r.aux.get(c, {}))
        if r.aux is None: n.aux = None
        return n
    if k == 'trim':
        if not r.rows: return None
        m = min(len(groups(v)) for v in r.rows.values())
        n.rows = OD((c, [(o, t, v) for t, g in groups(row)[:m] for o, v in g.items()]) for c, row in r.rows.items())
        n.reps = True; n.static = True
        return n
    if k == 'thaw': n.static = False
    if k == 'freeze': n.static = True
    if k == 'addto':
        n.ols = used(r.rows); n.aux = None; n.static = False; n.comment = None
        if not n.rows: n.reps = False
    return n


def apply_real(d, r, op, tmp):
    import pygsti
    from pygsti.objects import DataSet
    k = op[0]
    if k == 'truncate': return d.truncate(select(r, op[1]), op[2])
    if k == 'slice': return d.time_slice(*op[1:])
    if k == 'merge': return d.merge_outcomes(MERGES[op[1]], op[2])
    if k == 'cmerge': return pygsti.construction.merge_outcomes(d, MERGES[op[1]], op[2])
    if k == 'filter': return pygsti.construction.filter_dataset(d, op[1], (op[1][0],), op[2])
    if k == 'process':
        x = d.copy() if not d.bStatic else d
        x.process_circuits(flip(op[1]), op[2]); return x
    if k == 'trim': return pygsti.construction.trim_to_constant_numtimesteps(d)
    if k == 'thaw': return d.copy_nonstatic()
    if k == 'freeze': x = d.copy(); x.done_adding_data(); return x
    if k == 'copy': return d.copy()
    if k == 'pickle': return pickle.loads(pickle.dumps(d))
    if k == 'file':
        f = os.path.join(tmp, 'x' + op[1]); d.save(f); x = DataSet(); x.load(f); os.remove(f); return x
    if k == 'stream':
        f = io.BytesIO(); f.write(b'head'); d.save(f); d.save(f); f.seek(4); x = DataSet(); x.load(f); y = DataSet(fileToLoadFrom=f); return y
    if k == 'addto': x = DataSet(); x.add_counts_from_dataset(d); return x


def equal(d, r):
    """None, or a description of the first difference between the data set and the reference"""
    cs = list(r.rows)
    if list(d.keys()) != cs or len(d) != len(cs): return 'circuits', list(d.keys()), cs
    if [c.line_labels for c in d.keys()] != [c.line_labels for c in cs]: return 'line labels', [c.line_labels for c in d.keys()]
    if r.ols is not None:
        if sorted(d.get_outcome_labels()) != sorted(r.ols): return 'outcome labels', d.get_outcome_labels(), r.ols
    elif not set(used(r.rows)) <= set(d.get_outcome_labels()): return 'outcome labels', d.get_outcome_labels()
    if d.bStatic != r.static: return 'static', d.bStatic
    if r.comment is not None and d.comment != r.comment: return 'comment', d.comment
    for c, row in r.rows.items():
        x = d[c]
        if len(x) != len(x.oli) or len(x) != len(x.time) or (x.reps is not None and len(x.reps) != len(x)): return 'lengths', c
        a = [(t, sorted((o, n) for o, n in g.items())) for t, g in groups([tuple(e) for e in x])]
        b = [(t, sorted(g.items())) for t, g in groups(row)]
        if a != b: return 'data', c, a, b
        if (x.reps is not None) != r.reps and row: return 'repetitions', c, x.reps
        s = OD()
        for o, _, n in row: s[o] = s.get(o, 0) + n
        if dict(x.counts) != dict(s): return 'counts', c, dict(x.counts), dict(s)
        if x.total != sum(s.values()): return 'total', c, x.total
        if sorted(x.outcomes) != sorted(o for o, _, _ in row) and False: return 'outcomes', c
        if r.aux is not None and dict(x.aux) != r.aux.get(c, {}): return 'aux', c, x.aux, r.aux.get(c)
    return None


def shards(tier):
    return [(k, s, dcl, m) for k in KINDS for s in (0, 1) for dcl in ((0, 1) if k not in ('one', 'frac') else (0,)) for m in range(2 if tier == 'quick' else 8)]


def run(shard, ctx):
    kind, static, dcl, m = shard
    M = 2 if ctx.tier == 'quick' else 8
    depth = 2 if ctx.tier == 'quick' else 3
    tmp = tempfile.mkdtemp(prefix='c06-')
    try:
        r, d = initial(kind, static, dcl)
        h = '%s%s%s' % (kind, ' static' if static else '', ' declared' if dcl else '')
        ctx.where = h; ctx.state(r.key())
        e = equal(d, r); ctx.check(e is None, 'init:' + h, lambda: e)
        explore(ctx, r, d, h, 0, depth, tmp, [(r, d, h)], lambda i: i % M == m)
        ctx.sample(h)
    finally:
        shutil.rmtree(tmp)


def explore(ctx, r, d, h, dep, depth, tmp, anc, sel=lambda i: True):
    for i, op in enumerate(operations(r)):
        if not sel(i): continue
        h2 = h + ' ; ' + ' '.join(map(repr, op)); ctx.where = h2; ctx.trans()
        r2 = apply_ref(r, op)
        if r2 is None and r.ols is None and op[0] in ('merge', 'cmerge', 'filter'): continue
        if r.ols is None and op[0] in ('merge', 'cmerge', 'filter', 'slice'): r = r.copy(); r.ols = list(d.get_outcome_labels()); r2 = apply_ref(r, op)
        try: d2 = apply_real(d, r, op, tmp); err = None
        except (ValueError, KeyError, AssertionError, IndexError, TypeError, AttributeError) as e: err = e
        if r2 is None:
            if op[0] != 'filter': ctx.check(err is not None, 'norefuse:' + h2, lambda: h2 + ' was not refused')
        elif ctx.check(err is None, 'refused:' + h2, lambda: '%s refused: %s %s' % (h2, type(err).__name__, err)):
            if r2.ols is None: pass
            e = equal(d2, r2); ctx.trace()
            if ctx.check(e is None, 'data:' + h2, lambda: '%s: %r' % (h2, e)):
                if r2.ols is None: r2.ols = list(d2.get_outcome_labels())
                if r2.comment is None: r2.comment = d2.comment
                if r2.aux is None: r2.aux = {c: dict(d2[c].aux) for c in r2.rows}
                ctx.state(r2.key())
                if dep + 1 < depth: explore(ctx, r2, d2, h2, dep + 1, depth, tmp, anc + [(r2, d2, h2)])
                if not d2.bStatic and d2 is not d:
                    # editing the result must not reach the ancestors
                    for row in d2.values():
                        row.aux['later'] = 1
                        if len(row):
                            row.time[:] = 99; row.oli[:] = 0
                            if row.reps is not None: row.reps[:] = 77
                    d2.add_count_dict(list(circs().values())[1], {'q': 5, '00': 1})
                    d2.rename_outcome_labels({'00': 'zero', '0': 'nil'})
                elif d2.bStatic and d2 is not d:
                    d2.rename_outcome_labels({'00': 'zero', '0': 'nil', 'x': 'xx'})
                    for row in d2.values(): row.aux['later'] = 1
        for ra, da, ha in anc[-1:]:
            e = equal(da, ra)
            ctx.check(e is None, 'ancestor:' + h2, lambda: '%s changed the original: %r' % (h2, e))
