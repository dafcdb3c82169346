"""C28: the computation cache.  Functions echo what they were given (a structural description of their arguments), so any
answer that is not this call's own description is a wrong answer.  Hash/call durations (which decide whether the cache
caches a function at all) are chosen by the check, so both decisions are explored."""
import itertools, copy, pickle
from collections import OrderedDict as OD
LEVEL = 'model_checking'
RULE = ("all ordered pairs (and, per argument family, all call sequences of length 3) of calls over argument values that agree in "
        "value, type, order, length, hash or nesting but differ in content, for plain functions, methods and same-named functions, "
        "positional and keyword passing, with argument mutation, pickling and filled output arrays in between; under both "
        "outcomes of the time comparison; a state is the (calls so far, cache mode)")
ASSUMPTIONS = ["cached functions are pure module-level functions or methods", "results are not modified by the caller",
               "models are mutated through their parameters"]


def describe(v):
    """structural content, finer than =="""
    import numpy as np
    from pygsti.objects import Circuit
    from pygsti.objects.label import Label
    if isinstance(v, np.ndarray): return ('arr', str(v.dtype), v.shape, repr(v.tolist()))
    if isinstance(v, Circuit): return ('circ', v.str, v.line_labels, tuple(describe(x) for x in v.layertup) if v._static else None)
    if isinstance(v, Label): return ('lbl', str(v), v.args, v.time, v.sslbls)
    if isinstance(v, OD): return ('od', tuple((describe(a), describe(b)) for a, b in v.items()))
    if isinstance(v, dict): return ('d', tuple(sorted((repr(describe(a)), repr(describe(b))) for a, b in v.items())))
    if isinstance(v, (list, tuple)): return (type(v).__name__,) + tuple(describe(x) for x in v)
    if isinstance(v, (set, frozenset)): return (type(v).__name__,) + tuple(sorted(repr(describe(x)) for x in v))
    if hasattr(v, 'to_vector'): return ('model', repr([float(x) for x in v.to_vector()]))
    if isinstance(v, Box): return ('box', describe(v.a), describe(v.b))
    return (type(v).__name__, repr(v))


def fn_a(x, y=0, **kw): CALLS.append('a'); return ('fn_a', describe(x), describe(y), describe(kw))
def fn_b(x, y=0, **kw): CALLS.append('b'); return ('fn_b', describe(x), describe(y), describe(kw))
def other():
    def fn_a(x, y=0, **kw): return ('other fn_a', describe(x), describe(y), describe(kw))
    return fn_a
fn_a2 = other(); CALLS = []


class Box(object):
    __hash__ = None
    def __init__(self, a=0, b=0): self.a = a; self.b = b
    def meth(self, x, y=0): return ('meth', describe(self.a), describe(self.b), describe(x), describe(y))
    def fn_a(self, x, y=0): return ('Box.fn_a', describe(self.a), describe(self.b), describe(x), describe(y))
class Crate(Box):
    pass


def fill(out, x, y=0): out[:] = len(repr(describe(x))) + 10 * y; return ('fill', describe(x))


def families():
    import numpy as np
    from pygsti.objects import Circuit
    from pygsti.objects.label import Label
    L = Label
    return {
        'numbers': lambda: [0, 1, -1, -2, 2, True, False, 1.0, -1.0, -2.0, 0.0, 1 + 0j, 2 ** 61 - 1, 2 ** 61, -2j, -1 + 0j, float('inf'), 314159, 0.1, 0.1 + 1e-17 * 4, np.float64(1.0), np.int64(1), np.int64(-1), np.int64(-2), None],
        'text': lambda: ['', '0', '1', 'a', 'ab', 'b', b'', b'a', b'ab', bytearray(b'a'), bytearray(b'ab'), 'None', None, "<class 'str'>", 'é', '(1,)', ['a', 'b'], ['ab'], ('a', 'b'), ['a', "b<class 'str'>"]],
        'nested': lambda: [(), [], [[]], ([],), [[], []], [[[]]], [1, [2]], [[1, 2]], [[1], 2], [1, 2], (1, 2), [[1], [2]], [[1, 2], []], [2, 1], (1.0, 2), (-1,), (-2,), ((-1,),), (-1, -2), (-2, -1), [-1], [-2], ((1,), (2,)), ((1, 2),), (True, 2)],
        'maps': lambda: [{}, OD(), {'a': 1}, {'a': 2}, {'b': 1}, OD(a=1), OD([('a', 1), ('b', 2)]), OD([('b', 2), ('a', 1)]), {'a': 1, 'b': 2}, {'a': {'b': 1}}, {'a': {}, 'b': 1}, {'a': 'b'}, {1: 'x', 'y': 2}, {'y': 2, 1: 'x'}, {1: 1}, {1.0: 1}, {-1: 0}, {-2: 0}, {(1, 2): [3]}, {(1,): [2, 3]}],
        'sets': lambda: [set(), {1}, {2}, {-1}, {-2}, {1, 2}, frozenset(), frozenset({1}), frozenset({-1}), frozenset({-2}), frozenset({2}), {'a'}, {'b'}, [1], slice(1), slice(2), slice(0, 1), slice(0, 1, 2)],
        'arrays': lambda: [np.zeros(2), np.zeros(2, int), np.zeros((2, 1)), np.zeros((1, 2)), np.array([0, 1.]), np.array([1., 0]), np.zeros(4, 'float32'), np.zeros(1, complex), np.arange(4).reshape(2, 2), np.arange(4).reshape(2, 2).T, np.arange(4), np.arange(8)[::2], np.array([], int), np.array([]), np.array('ab'), np.array(['a', 'b']), np.array([[1], [2]], object), np.array([[1], [3]], object), np.array(1.0), 1.0, [0.0, 0.0], (np.zeros(1), np.zeros(1)), (np.zeros(2),), [np.zeros(1), [np.zeros(1)]]],
        'labels': lambda: ['Gx', ('Gx',), L('Gx'), L('Gx', 0), L('Gx', (0,)), L('Gx', '0'), L('Gx', 1), L('Gx', (-1,)), L('Gx', (-2,)), L('Gz', 0, args=(-1.0,)), L('Gz', 0, args=(-2.0,)), L('Gz', 0, args=('-1',)), L('Gx', 0, time=1.0), L('Gx', 0, time=2.0), L([('Gx', 0), ('Gy', 1)]), L([('Gy', 1), ('Gx', 0)]), L([('Gx', 0)]), L(())],
        'circuits': lambda: [Circuit(('Gx',)), Circuit([('Gx', 0)], (0,)), Circuit([('Gx', 0)], (0, 1)), Circuit([('Gx', 0)], (1, 0)), Circuit([('Gx', 0)], (0,), editable=True), Circuit([], (0,)), Circuit([], (1,)), Circuit([L('Gz', 0, args=(-1.0,))], (0,)), Circuit([L('Gz', 0, args=(-2.0,))], (0,)), Circuit([('Gx', 0), ('Gx', 0)], (0,)), [Circuit([('Gx', 0)], (0,)), Circuit([('Gx', 0)], (0,))], [Circuit([('Gx', 0), ('Gx', 0)], (0,))], [Circuit([('Gx', -1)], (-1,))], [Circuit([('Gx', -2)], (-2,))]],
        'objects': lambda: [Box(), Box(1), Box(0, 1), Box([1], [2]), Box([1, 2], []), Crate(), Crate(1), Box(np.zeros(2)), Box(np.ones(2)), Box({1}), Box({2}), Box(-1), Box(-2), Box(None, 'b'), Box('b', None), [Box(1), Box(2)], [Box(1, 2)]],
    }


class Clock(object):
    """stands in for the library's timer: the duration of hashing and of calling is decided here"""
    def __init__(self, effective): self.e = effective
    def __call__(self, name, tdict=None, *a, **k):
        import contextlib
        @contextlib.contextmanager
        def block():
            yield None
            d = 1.0 if (name == 'call') == self.e else 0.1
            if tdict is not None and name in ('hash', 'call'): tdict[name] = d
        return block()


def shards(tier):
    fams = ['numbers', 'text', 'nested', 'maps', 'sets', 'arrays', 'labels', 'circuits', 'objects']
    return [(f, e) for f in fams for e in (True, False)] + [('cross', True), ('fns', True), ('fns', False), ('mut', True), ('mut', False), ('fill', True), ('fill', False), ('deco', True)] + [(f + '3', True) for f in fams]


def run(shard, ctx):
    import pygsti.objects.smartcache as sc
    fam, eff = shard
    sc._timed_block = Clock(eff)
    F = families()
    what = '%s%s' % (fam, '' if eff else ' (not cached)')

    def new(): sc.SmartCache.StaticCacheList.clear(); return sc.SmartCache()

    def call(cache, f, args, kw, h, low=False):
        want = f(*copy.deepcopy(args), **copy.deepcopy(kw)); ctx.trans()
        got = (cache.low_overhead_cached_compute if low else cache.cached_compute)(f, args, dict(kw))[1]
        ctx.trace(); ctx.state((h, eff))
        ctx.check(got == want, '%s:%s' % (what, h), lambda: '%s: cached answer %r, function says %r' % (h, got, want), h)

    if fam in F or fam == 'cross':
        vals = F[fam]() if fam in F else [x for f in F.values() for x in f()[::3]]
        for i, a in enumerate(vals):
            for j, b in enumerate(vals):
                for low in (False, True):
                    c = new()
                    h = '%s[%d] then [%d]%s: %r / %r' % (what, i, j, ' low' if low else '', a, b)
                    call(c, fn_a, (a,), {}, h + ' 1st', low); call(c, fn_a, (b,), {}, h + ' 2nd', low); call(c, fn_a, (a,), {}, h + ' again', low)
                    if low: continue
                    call(c, fn_a, (a, b), {}, h + ' two', low); call(c, fn_a, (b, a), {}, h + ' swapped', low)
                    call(c, fn_a, (a,), {'y': b}, h + ' kw', low); call(c, fn_a, (b,), {'y': a}, h + ' kw swapped', low); call(c, fn_a, (0, b), {'q': a}, h + ' kw3', low)
                    call(c, fn_a, (), {'x': a, 'y': b}, h + ' kw both', low); call(c, fn_a, (), {'y': a, 'x': b}, h + ' kw both swapped', low)
                    call(c, fn_a, ([a, b],), {}, h + ' list', low); call(c, fn_a, ([b, a],), {}, h + ' list', low); call(c, fn_a, ((a,), (b,)), {}, h + ' tuples', low); call(c, fn_a, ((a, b),), {}, h + ' tuple', low)
                    c2 = pickle.loads(pickle.dumps(c))
                    call(c2, fn_a, (b,), {}, h + ' reloaded', low); call(c2, fn_a, (b, a), {}, h + ' reloaded', low); call(c2, fn_b, (b, a), {}, h + ' reloaded', low)
        ctx.sample(what + ' pairs')
    elif fam.endswith('3'):
        vals = F[fam[:-1]]()
        n = len(vals)
        for seq in itertools.product(range(n), repeat=3):
            c = new()
            for k, i in enumerate(seq): call(c, fn_a if k != 1 else fn_b, (vals[i], vals[seq[0]]), {'z': vals[seq[k - 1]]}, '%s %s step %d' % (what, seq, k))
        ctx.sample(what + ' triples')
    elif fam == 'fns':
        b0, b1, c0 = Box(0), Box(1), Crate(0)
        fs = [fn_a, fn_b, fn_a2, b0.meth, b1.meth, c0.meth, b0.fn_a, b1.fn_a, c0.fn_a]
        for seq in itertools.product(range(len(fs)), repeat=3):
            c = new()
            for i in seq:
                call(c, fs[i], (5,), {}, '%s %s' % (what, seq)); call(c, fs[i], (5, 0), {}, '%s %s explicit default' % (what, seq)); call(c, fs[i], (5,), {'y': 1}, '%s %s' % (what, seq))
        ctx.sample('functions sharing names')
    elif fam == 'mut':
        import numpy as np
        from pygsti.construction import std1Q_XYI as std
        from pygsti.objects import DataSet
        def arr(x): x[0] += 1
        def lst(x): x.append(3)
        def dct(x): x['k'] = x.get('k', 0) + 1
        def box(x): x.a += 1
        def mod(x): x.from_vector(x.to_vector() + 0.125)
        def nest(x): x[0]['a'][0] += 1
        def st(x): x.add(len(x) + 7)
        cases = [(lambda: np.zeros(2), arr), (lambda: [1], lst), (dict, dct), (Box, box), (lambda: std.target_model(), mod), (lambda: [{'a': np.zeros(1)}], nest), (set, st), (lambda: bytearray(b'a'), lambda x: x.append(1))]
        for (mk, mut), pat in itertools.product(cases, itertools.product('cmp', repeat=5)):
            c = new(); v = mk(); h = '%s %s %s' % (what, type(v).__name__, ''.join(pat))
            bx = Box(v)
            for p in pat:
                if p == 'm': mut(v)
                elif p == 'p': c = pickle.loads(pickle.dumps(c))
                else:
                    call(c, fn_a, (v,), {}, h); call(c, fn_a, (1,), {'w': v}, h); call(c, bx.meth, (0,), {}, h); call(c, fn_b, ([v],), {}, h, True)
        ctx.sample('mutations')
    elif fam == 'fill':
        import numpy as np
        for pat in itertools.product(('x', 'y', 'dirty', 'p', 'kw'), repeat=4):
            c = new(); out = np.zeros(3); h = '%s %s' % (what, pat)
            for p in pat:
                ctx.trans(); ctx.where = h
                if p == 'dirty': out[:] = -7
                elif p == 'p': c = pickle.loads(pickle.dumps(c))
                else:
                    if p == 'kw': kw = {'out': out, 'x': 'kk', '_filledarrays': ('out',)}; k0 = dict(kw); r = c.cached_compute(fill, [], kw)[1]; w = len(repr(describe('kk')))
                    else: kw = {'_filledarrays': (0,)}; k0 = dict(kw); r = c.cached_compute(fill, [out, p * 3], kw)[1]; w = len(repr(describe(p * 3)))
                    ctx.check(all(out == w), h, lambda: '%s: filled array holds %r, expected %r' % (h, out, w))
                    ctx.check(set(kw) == set(k0), h + ' kwargs', lambda: "%s: the caller's keyword dictionary was changed to %r" % (h, kw))
                    out2 = np.zeros(3)
                    c.cached_compute(fill, [out2, 'yyy'], kw if p != 'kw' else {'_filledarrays': (0,)})
                    ctx.check(all(out2 == len(repr(describe('yyy')))), h + ' second array', lambda: '%s: second array %r' % (h, out2))
                    out2[:] = 55; ctx.trace(); ctx.state(h)
        def local(): pass
        for v in (lambda: 3, local, {1: local}, [local], open('/dev/null'), (i for i in ())):
            c = new(); c.cached_compute(fn_a, (1,)); c.cache[('zz', 'k')] = v; c.outargs[('zz', 'k')] = (v,)
            c2 = pickle.loads(pickle.dumps(c)); ctx.trans(); ctx.state(repr(type(v)))
            call(c2, fn_a, (1,), {}, 'reload with unpicklable results'); ctx.check(('zz', 'k') not in c2.cache, 'unpicklable', 'kept')
        ctx.sample('filled arrays')
    elif fam == 'deco':
        @sc.smart_cached
        def f(x, y=2, *a, **k): return (describe(x), describe(y), describe(a), describe(k))
        calls = [((1,), {}), ((1, 2), {}), ((2, 1), {}), ((1,), {'y': 2}), ((1, 2, 3), {}), (([1, 2],), {}), ((1,), {'z': 2}), ((1,), {'y': 3, 'z': 2}), ((1,), {'z': 3, 'y': 2})]
        for seq in itertools.product(calls, repeat=3):
            for a, k in seq:
                w = (describe(a[0]), describe(a[1] if len(a) > 1 else k.get('y', 2)), describe(a[2:]), describe({x: y for x, y in k.items() if x != 'y'}))
                ctx.trans(); g = f(*a, **k); ctx.trace(); ctx.state((repr(seq)))
                ctx.check(g == w, 'deco %r' % (seq,), lambda: (g, w))
        ctx.sample('decorated')
