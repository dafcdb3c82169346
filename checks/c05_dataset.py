"""C05: data-set histories.  Breadth-first exploration of operation histories on real DataSets against a reference that is
an ordered dictionary of rows (outcome, time, repetitions)."""
import copy, itertools
from collections import OrderedDict
LEVEL = 'model_checking'
RULE = ("all histories of data-set operations to depth 3 (every argument choice at the first step, then a reduced set; every "
        "choice at every step in thorough) from 9 initial configurations (collision mode x declared outcomes x initial data); a state is the data "
        "held by the reference; every transition is executed on the real DataSet and every state is fully read back")
ASSUMPTIONS = ["counts are representable in the repetition type (float32)", "time stamps of one row are compared exactly"]


class Refuse(Exception): pass


def O(x): return (x,) if isinstance(x, str) else tuple(x)


class Ref(object):
    def __init__(self, mode, ols=()):
        self.mode = mode; self.ols = [O(o) for o in ols]; self.rows = OrderedDict(); self.reps = False; self.aux = {}; self.static = False

    def copy(self):
        r = copy.copy(self); r.ols = list(self.ols); r.rows = OrderedDict((k, list(v)) for k, v in self.rows.items()); r.aux = copy.deepcopy(self.aux); return r

    def key(self): return repr((self.mode, self.ols, list(self.rows.items()), self.reps, sorted(self.aux.items()), self.static))

    def tag(self, c):
        if c in self.rows and self.mode == 'keepseparate':
            i = 1
            while c + '#%d' % i in self.rows: i += 1
            return c + '#%d' % i
        return c

    def raw(self, c, ols, times, reps=None, over=True, zero=True, aux=None):
        if self.static: raise Refuse()
        c = self.tag(c)
        if reps is not None: self.reps = True
        for o in ols:
            if O(o) not in self.ols: self.ols.append(O(o))
        new = [(O(o), float(t), float(1 if reps is None else reps[i])) for i, (o, t) in enumerate(zip(ols, times))]
        if not zero and self.reps: new = [x for x in new if x[2] != 0]
        if c in self.rows and not over: self.rows[c] = self.rows[c] + new
        else: self.rows[c] = new
        if aux is not None: self.aux[c] = dict(aux)

    def counts(self, c, d, zero=True, aux=None):
        if self.static: raise Refuse()
        items = list(d.items()) if isinstance(d, OrderedDict) else sorted(d.items(), key=lambda x: x[0])
        c = self.tag(c); t = 0; over = True
        if self.mode == 'aggregate' and c in self.rows:
            t = int(max(x[1] for x in self.rows[c])) + 1 if self.rows[c] else 0; over = False
        self.raw(c, [k for k, _ in items], [t] * len(items), [v for _, v in items], over, zero, aux)

    def series(self, c, dicts, times, over=True, zero=True, aux=None):
        o, t, n = [], [], []
        for d, tt in zip(dicts, times):
            for k in (d if isinstance(d, OrderedDict) else sorted(d)): o.append(k); t.append(tt); n.append(d[k])
        self.raw(c, o, t, n, over, zero, aux)

    def setitem(self, c, val):
        m = self.mode; self.mode = 'overwrite'
        try:
            if isinstance(val, dict): self.counts(c, val)
            else: self.raw(c, *val)
        finally: self.mode = m

    def remove(self, cs, missing='raise'):
        if self.static: raise Refuse()
        if missing == 'raise' and any(c not in self.rows for c in cs): raise Refuse()
        for c in cs:
            if self.rows.pop(c, None) is not None: self.aux.pop(c, None)

    def rename(self, d):
        m = {O(k): O(v) for k, v in d.items()}
        if len(set(m.get(o, o) for o in self.ols)) != len(self.ols): raise Refuse()
        self.ols = [m.get(o, o) for o in self.ols]
        self.rows = OrderedDict((c, [(m.get(o, o), t, n) for o, t, n in v]) for c, v in self.rows.items())

    def build_reps(self):
        if self.static and not self.reps: raise Refuse()
        self.reps = True

    def scale(self, c, f):
        if self.static or not self.reps: raise Refuse()
        self.rows[c] = [(o, t, n * f) for o, t, n in self.rows[c]]


def circ(c):
    from pygsti.objects import Circuit
    base, _, tag = c.partition('#')
    x = {'A': lambda: Circuit([('Gx', 0), ('Gy', 0)], (0,)), 'B': lambda: Circuit(('Gx',)), 'C': lambda: Circuit([], (0,))}[base]()
    return x if not tag else Circuit(x.layertup + (('#' + tag),), x.line_labels)


def initial(k):
    """(reference, real) for configuration k"""
    from pygsti.objects import DataSet
    mode = ('aggregate', 'overwrite', 'keepseparate')[k % 3]; kind = k // 3
    r = Ref(mode, ['1', '0'] if kind == 1 else ())
    d = DataSet(outcomeLabels=['1', '0'] if kind == 1 else None, collisionAction=mode)
    if kind == 2:
        for c in 'AB':
            r.raw(c, ['0', '1', '0', '2'], [0, 0, 1.5, 1.5]); d.add_raw_series_data(circ(c), ['0', '1', '0', '2'], [0, 0, 1.5, 1.5])
    return r, d


OD = OrderedDict
BIG = 1.6e9


def operations(r, d, tier='quick'):
    """operations offered at depth d"""
    cs = ['A', 'B'] if d == 0 else ['A', 'B', 'C']
    some = list(r.rows)[:1] + list(r.rows)[-1:]
    full = d < (1 if tier == 'quick' else 3)
    for c in cs:
        yield 'counts', (c, {'0': 3, '1': 2})
        yield 'counts', (c, OD([('1', 1), (('a', 'b'), 4)]))
        yield 'raw', (c, ['1', '0', '1'], [0, 1, 1])
        yield 'raw', (c, ['0', '2'], [2, 3], [5, 0.5], False)
        if not full:
            if d == 1:
                yield 'series', (c, [{'1': 1, '0': 2}, OD([('2', 3), ('0', 0)])], [1, 4])
                yield 'setitem', (c, (['1', '0'], [7, 8]))
            continue
        yield 'counts', (c, {'1': 0, '0': 7}, False)
        yield 'counts', (c, {'1': 0, '0': 1}, True, {'note': c, 'k': [1]})
        yield 'raw', (c, ['1', '1', '0'], [BIG, BIG, BIG + 1], [0, 2, 3], False, False)
        yield 'raw', (c, ['0', '0'], [3, 3], None, True, False)
        yield 'raw', (c, ['0', '1'], [1, 2], None, False, True, {'z': 1})
        yield 'series', (c, [{'1': 1, '0': 2}, OD([('2', 3), ('0', 0)])], [1, 4])
        yield 'series', (c, [{'1': 1}, {'0': 0, '1': 6}], [4, 5], False, False)
        yield 'setitem', (c, {'0': 9, '2': 1})
        yield 'setitem', (c, (['1', '0'], [7, 8]))
        yield 'setitem', (c, (['1', '0'], [7, 8], [2, 0]))
        yield 'aux', (c, {'n': d})
    yield 'remove', (['A'],)
    yield 'remove', (['B', 'Z', 'B'], 'ignore')
    if some:
        yield 'del', (some[0],)
        yield 'del', (some[-1],)
        yield 'scale', (some[0], 2)
        yield 'row_set', (some[-1],)
        yield 'occ', (some[0].split('#')[0],)
        yield 'remove', (list(r.rows)[::-1], 'raise')
    yield 'rename', ({'0': 'up', '1': ('down', 'x')},)
    yield 'rename', ({'0': '1', '1': '0'},)
    yield 'build_reps', ()
    yield 'from_ds', (0,)
    yield 'from_ds', (1,)
    yield 'copy', ()
    yield 'freeze', ()
    yield 'thaw', ()


def other(i):
    from pygsti.objects import DataSet
    r = Ref('aggregate'); d = DataSet()
    args = [('B', ['2', '0'], [0, 0], [1, 8]), ('C', ['1'], [0], [4])] if i == 0 else [('A', ['0', '1'], [0.5, 1.5])]
    for a in args: r.raw(*a); d.add_raw_series_data(circ(a[0]), *a[1:])
    if i == 0: d.done_adding_data()
    return r, d


def apply_ref(r, op, a):
    if op == 'aux': r.aux[a[0]] = dict(a[1]); return
    if op == 'del':
        if a[0] not in r.rows: raise Refuse()
        return r.remove([a[0]])
    if op == 'from_ds':
        if r.static: raise Refuse()
        o, _ = other(a[0])
        for c, row in o.rows.items(): r.raw(c, [x[0] for x in row], [x[1] for x in row], [x[2] for x in row] if o.reps else None, False)
        return
    if op == 'freeze': r.static = True; return
    if op in ('copy',): return
    if op == 'thaw': r.static = False; return
    if op == 'row_set':
        row = r.rows[a[0]]
        if not row: raise Refuse()
        o = r.ols[-1]
        row[0] = (o, 2.5, 6.0 if r.reps else 1.0)
        return
    if op == 'occ':
        if r.static: raise Refuse()
        c = r.tag(a[0] + '#1')
        # set_row with an occurrence number names the row c#1 in every mode
        return r.counts(a[0] + '#1', {'0': 11, '1': 1}) if r.mode != 'keepseparate' else r.setitem(a[0] + '#1', {'0': 11, '1': 1})
    return getattr(r, op)(*a)


def apply_real(d, r, op, a):
    if op == 'counts': return d.add_count_dict(circ(a[0]), *a[1:])
    if op == 'raw': return d.add_raw_series_data(circ(a[0]), *a[1:])
    if op == 'series': return d.add_series_data(circ(a[0]), *a[1:])
    if op == 'setitem': d[circ(a[0])] = a[1]; return
    if op == 'aux': return d.add_auxiliary_info(circ(a[0]), a[1])
    if op == 'remove': return d.remove([circ(c) if c != 'Z' else ('Gnone',) for c in a[0]], *a[1:])
    if op == 'del': del d[circ(a[0])]; return
    if op == 'rename': return d.rename_outcome_labels(a[0])
    if op == 'build_reps': return d.build_repetition_counts()
    if op == 'scale': return d[circ(a[0])].scale(a[1])
    if op == 'from_ds': return d.add_counts_from_dataset(other(a[0])[1])
    if op == 'freeze': return d.done_adding_data()
    if op == 'row_set':
        row = d[circ(a[0])]
        row[0] = (r.ols[-1], 2.5, 6) if r.reps else (r.ols[-1], 2.5); return
    if op == 'occ':
        ca = d.collisionAction
        if ca == 'keepseparate': d.collisionAction = 'overwrite'
        try: return d.set_row(circ(a[0]), {'0': 11, '1': 1}, occurrence=1)
        finally: d.collisionAction = ca


def group(row):
    """consecutive entries at the same time"""
    out = []
    for o, t, n in row:
        if out and out[-1][0] == t: out[-1][1].append((o, n))
        else: out.append((t, [(o, n)]))
    return out


def sums(pairs):
    d = OrderedDict()
    for o, n in pairs: d[o] = d.get(o, 0) + n
    return d


def observe(d, r, ck, full=True):
    """compare everything the data set reports with the reference"""
    import numpy as np
    cs = [circ(c) for c in r.rows]
    ck(list(d.keys()) == cs and list(d) == cs and len(d) == len(cs), 'keys', lambda: (list(d.keys()), cs))
    ck([k for k, _ in d.items()] == cs, 'items', lambda: list(d.items()))
    if r.mode == 'keepseparate':
        ck(d.keys(True) == [circ(c.split('#')[0]) for c in r.rows] and [k for k, _ in d.items(True)] == d.keys(True), 'stripped keys', lambda: d.keys(True))
    ck(list(d.get_outcome_labels()) == r.ols, 'outcome labels', lambda: (d.get_outcome_labels(), r.ols))
    for c in 'ABC': ck((circ(c) in d) == (c in r.rows) and (tuple(circ(c)) in d) == (c in r.rows or False) if c == 'B' else (circ(c) in d) == (c in r.rows), 'contains ' + c, lambda: None)
    byval = list(d.values())
    ck(len(byval) == len(cs), 'values', lambda: len(byval))
    for i, (c, row) in enumerate(r.rows.items()):
        x = d[cs[i]]
        for y, w in ((x, c), (byval[i], c + ' (values())')):
            rp = [n for _, _, n in row]
            ck(y.outcomes == [o for o, _, _ in row] and list(y.time) == [t for _, t, _ in row] and ((y.reps is None and not r.reps) or (y.reps is not None and list(y.reps) == rp)),
               w + ' raw', lambda: (y.outcomes, list(y.time), y.reps, row, r.reps))
        if '#' in c and r.mode == 'keepseparate':
            b, t = c.split('#'); z = d.get_row(circ(b), int(t))
            ck(z.outcomes == x.outcomes and list(z.time) == list(x.time), c + ' get_row(occurrence)', lambda: (z.outcomes, x.outcomes))
        ck(len(x) == len(row), c + ' len', lambda: len(x))
        ck([tuple(e) for e in x] == row, c + ' iteration', lambda: list(x))
        for j in range(len(row)): ck(tuple(x[j]) == row[j], c + ' [%d]' % j, lambda: x[j])
        cnt = sums((o, n) for o, _, n in row)
        want = {o: n for o, n in cnt.items()}
        for rep in (1, 2):
            ck(dict(x.counts) == want, c + ' counts', lambda: (dict(x.counts), want))
        ck(dict(x.as_dict()) == want, c + ' as_dict', lambda: x.as_dict())
        ck(dict(x.allcounts) == {o: cnt.get(o, 0) for o in r.ols}, c + ' allcounts', lambda: dict(x.allcounts))
        tot = sum(cnt.values())
        ck(x.total == tot, c + ' total', lambda: x.total)
        for o in (r.ols if len(r.ols) < 50 else r.ols[:4] + r.ols[-4:]):
            ck(x[o] == cnt.get(o, 0) and (o in x) == (o in cnt), c + ' [%s]' % (o,), lambda: x[o])
            if tot > 0: ck(abs(x.fraction(o) - cnt.get(o, 0) / tot) < 1e-9, c + ' fraction', lambda: x.fraction(o))
            ts, ns = x.timeseries(o)
            g = [(t, sum(n for oo, n in p if oo == o)) for t, p in group(row) if any(oo == o for oo, _ in p)]
            m = []
            for t, n in g:
                if m and m[-1][0] == t: m[-1] = (t, m[-1][1] + n)
                else: m.append((t, n))
            ck(list(zip(ts, ns)) == m, c + ' timeseries(%s)' % (o,), lambda: (ts, ns, m))
        try: x['nosuch']; ok = False
        except KeyError: ok = True
        ck(ok, c + " ['nosuch']", lambda: 'no KeyError')
        if tot > 0:
            fr = x.fractions
            ck(set(fr) == set(cnt) and all(abs(fr[o] - cnt[o] / tot) < 1e-9 for o in cnt), c + ' fractions', lambda: fr)
        ck(dict(x.aux) == r.aux.get(c, {}), c + ' aux', lambda: (x.aux, r.aux.get(c)))
        if not full: continue
        for t in sorted(set(t for _, t, _ in row)) + [1.25]:
            w = dict(sums((o, n) for o, tt, n in row if tt == t))
            ck(dict(x.counts_at_time(t)) == w and dict(x[float(t)]) == w, c + ' counts_at_time(%s)' % t, lambda: (dict(x.counts_at_time(t)), w))
        G = group(row)
        ck(x.get_times() == [t for t, _ in G] and x.get_number_of_times() == len(G), c + ' get_times', lambda: x.get_times())
        ts, ns = x.timeseries('all')
        ck(list(ts) == [t for t, _ in G] and list(ns) == [sum(n for _, n in p) for _, p in G], c + ' timeseries(all)', lambda: (ts, ns))
        req = [0.0, 1.0, 1.5, 3.0]
        ts, ns = x.timeseries('all', req)
        ck(list(ts) == req and list(ns) == [sum(n for _, t, n in row if t == q) for q in req], c + ' timeseries(all, times)', lambda: (ts, ns))
        ts, se = x.get_timeseries()
        ck(list(ts) == [t for t, _ in G] and [dict(s) for s in se] == [dict(sums(p)) for _, p in G], c + ' get_timeseries', lambda: (ts, se))
        ts, se = x.get_timeseries_for_outcomes()
        ck(list(ts) == [t for t, _ in G] and {k: list(v) for k, v in se.items()} == {o: [sums(p).get(o, 0) for _, p in G] for o in r.ols}, c + ' get_timeseries_for_outcomes', lambda: (ts, se))
        ts, ns = x.get_reps_timeseries()
        if r.reps: ck(list(ts) == [t for t, _ in G] and list(ns) == [sum(n for _, n in p) for _, p in G], c + ' get_reps_timeseries', lambda: (ts, ns))
        if all(float(n).is_integer() for _, _, n in row):
            ex = [(o, t) for o, t, n in row for _ in range(int(n))]
            ck(list(x.get_expanded_ol()) == [o for o, _ in ex] and list(x.get_expanded_times()) == [t for _, t in ex] and [d.ol[k] for k in x.get_expanded_oli()] == [o for o, _ in ex], c + ' expanded', lambda: x.get_expanded_ol())
        if row and r.reps:
            tots = [sum(n for _, n in p) for _, p in G]
            ck(bool(x.has_constant_totalcounts()) == (len(set(tots)) == 1), c + ' has_constant_totalcounts', lambda: tots)
    if not full or not r.rows or not all(r.rows.values()): return
    ck(bool(d.has_trivial_timedependence()) == all(t == 0 for row in r.rows.values() for _, t, _ in row), 'trivial time dependence', lambda: None)
    ck(bool(d.has_constant_totalcounts()) == (len(set(sum(n for _, _, n in row) for row in r.rows.values())) == 1), 'has_constant_totalcounts', lambda: None)
    if r.reps:
        tots = [sum(n for _, n in p) for row in r.rows.values() for _, p in group(row)]
        ck(bool(d.has_constant_totalcounts_pertime()) == (len(set(tots)) == 1), 'has_constant_totalcounts_pertime', lambda: tots)
        try: v = d.totalcounts_pertime()
        except (ValueError, AssertionError): v = None
        ck(v == (tots[0] if len(set(tots)) == 1 else None), 'totalcounts_pertime', lambda: (v, tots))
    for method in ('present_outcomes-1', 'all_outcomes-1'):
        for agg in (True, False):
            n = 0
            for row in r.rows.values():
                gs = [set(o for o, _, _ in row)] if agg else [set(o for o, _ in p) for _, p in group(row)]
                n += sum((len(r.ols) if method[0] == 'a' else len(g)) - 1 for g in gs)
            ck(d.get_degrees_of_freedom(None, method, agg) == n, 'degrees of freedom %s %s' % (method, agg), lambda: (d.get_degrees_of_freedom(None, method, agg), n))
    str(d)


def shards(tier):
    out = []
    for k in range(9):
        r, _ = (None, None)
        n = 60
        out += [(k, i) for i in range(n)]
    return out


def run(shard, ctx):
    k, i0 = shard
    depth = 3
    r, d = initial(k)
    ops = list(operations(r, 0))
    if i0 >= len(ops):
        if i0 >= 55: wide(ctx, k, i0 - 55)
        return
    seen = set()

    def ck_for(h):
        def ck(cond, what, info):
            return ctx.check(cond, 'obs:%s:%s' % (what, h), lambda: 'after %s, %s: %r' % (h, what, info()), h)
        return ck

    def step(r, d, op, a, h):
        r2 = r.copy(); d2 = copy.deepcopy(d)
        h2 = h + ' ; %s%r' % (op, a); ctx.where = h2; ctx.trans()
        try: apply_ref(r2, op, a); refused = False
        except Refuse: refused = True
        if op == 'thaw':
            before = r2.copy(); d3 = d2.copy_nonstatic()
            d, d2 = d2, d3
        elif op == 'copy' and not r.static:
            d3 = d2.copy(); d, d2 = d2, d3
        else: d = None
        try:
            if op not in ('thaw', 'copy'): apply_real(d2, r, op, a)
            err = None
        except (ValueError, AssertionError, KeyError, TypeError, IndexError) as e: err = e
        if refused:
            ctx.check(err is not None, 'norefuse:' + h2, lambda: '%s was not refused' % h2)
            if r.static: observe(d2, r, ck_for(h2 + ' (refused)'), False)
            return None
        if not ctx.check(err is None, 'refused:' + h2, lambda: '%s refused: %s %s' % (h2, type(err).__name__, err)): return None
        ctx.check(d2.bStatic == r2.static and d2.collisionAction == r2.mode, 'config:' + h2, lambda: '%s: static %s mode %s' % (h2, d2.bStatic, d2.collisionAction))
        ctx.trace()
        return r2, d2, h2, d

    def explore(r, d, dep, h, ops):
        for op, a in ops:
            res = step(r, d, op, a, h)
            if res is None: continue
            r2, d2, h2, orig = res
            key = (r2.key(), dep, orig is not None)
            if key in seen: continue
            seen.add(key); ctx.state(r2.key())
            observe(d2, r2, ck_for(h2), dep + 1 < depth or ctx.tier != 'quick')
            ro = None
            if orig is not None: ro = r.copy()
            if dep + 1 < depth and not (op in ('freeze',) and dep > 0 and r.static):
                explore(r2, d2, dep + 1, h2, operations(r2, dep + 1, ctx.tier))
            if orig is not None and not r.static:
                # later changes of the copy are not seen by the original
                x = d2
                try:
                    x.add_count_dict(circ('A'), {'q': 5, '0': 1}); x.add_auxiliary_info(circ('A'), {'late': 1})
                    for row in x.values():
                        row.aux['later'] = 1
                        if len(row): row.time[:] = 99; row.oli[:] = 0
                        if row.reps is not None and len(row): row.reps[:] = 77
                    x.rename_outcome_labels({'0': 'zero'})
                except ValueError: pass
                observe(orig, ro, ck_for(h2 + ' then changing the copy, original'))
    explore(r, d, 0, 'config%d' % k, ops[i0:i0 + 1])
    ctx.sample('config%d ; %s%r ; ...' % (k, ops[i0][0], ops[i0][1]))


def wide(ctx, k, part):
    """more than 256 outcome labels: counts are looked up one by one"""
    from pygsti.objects import DataSet
    r, d = initial(k)
    ol = ['%03d' % i for i in range(300)]
    if part == 4: return removals(ctx, k)
    for c, sel in ((('A', ol),), (('B', ol[::7]),))[part % 2]:
        for rp in ((None, [i % 5 for i in range(len(sel))]) if c == 'B' else (None,)):
            a = (c, sel, [i // 2 for i in range(len(sel))], rp, False)
            r.raw(*a); d.add_raw_series_data(circ(c), *a[1:])
            ctx.trans(); ctx.state(r.key()); ctx.trace()
            def ck(cond, what, info): return ctx.check(cond, 'wide%d:%s' % (k, what), lambda: '%s: %r' % (what, info()), what)
            observe(d, r, ck)
    if part // 2: d.done_adding_data(); r.static = True; observe(d, r, ck)


def removals(ctx, k):
    """every set of up to four circuits removed at once from a data set of twelve, then one of them added again"""
    from pygsti.objects import DataSet, Circuit
    n = 12 if k < 6 else 17
    cs = [Circuit([('Gx', 0)] * (i % 5) + [('Gy', 0)] * (i // 5), line_labels=(0,)) for i in range(n)]
    base = DataSet(outcomeLabels=['0', '1'])
    rows = []
    for i, c in enumerate(cs):
        if k % 2:
            ol, ts, rp = ['0', '1', '0'][:1 + i % 3], [0., 1., 2.][:1 + i % 3], [1 + i, 20 + i, 40 + i][:1 + i % 3]
            base.add_raw_series_data(c, ol, ts, rp); rows.append(list(zip(ol, ts, rp)))
        else:
            base.add_count_dict(c, {'0': i + 1, '1': 90 - i}); rows.append([('0', 0, i + 1), ('1', 0, 90 - i)])
    def rd(row): return [(o[0], float(t), float(x)) for o, t, x in zip(row.outcomes, row.time, row.reps)]
    subs = [s for m in ((1, 2, 3, 4) if n == 12 else (1, 2)) for s in itertools.combinations(range(n), m)]
    for j, s in enumerate(subs):
        if j % 3 != k % 3: continue
        for order in {s, s[::-1], s[1:] + s[:1]}:
            d = base.copy(); ctx.where = repr(order); ctx.trans()
            d.remove([cs[i] for i in order])
            left = [i for i in range(n) if i not in s]
            ctx.check([c for c in d] == [cs[i] for i in left], 'remove many:circuits', lambda: 'after removing circuits number %r of %d' % (order, n), order)
            ctx.check([rd(d[cs[i]]) for i in left] == [[(o, float(t), float(x)) for o, t, x in rows[i]] for i in left], 'remove many:rows', lambda: 'after removing circuits number %r of %d, rows are %r' % (order, n, [rd(d[cs[i]]) for i in left]), order)
            d.add_count_dict(cs[order[0]], {'0': 7, '1': 8})
            ctx.check([c for c in d] == [cs[i] for i in left] + [cs[order[0]]] and [rd(d[cs[i]]) for i in left] == [[(o, float(t), float(x)) for o, t, x in rows[i]] for i in left] and rd(d[cs[order[0]]])[0][2] == 7,
                      'remove many:added again', lambda: 'after removing %r and adding %r' % (order, order[0]), order)
            ctx.state((k, order)); ctx.trace()
    ctx.check([rd(base[c]) for c in cs] == [[(o, float(t), float(x)) for o, t, x in q] for q in rows], 'remove many:original', 'the original changed', k)
