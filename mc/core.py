"""
Common machinery of the bounded-exhaustive checks.

A check is a module /verif/checks/<id>_*.py with

    LEVEL  = 'model_checking' | 'exploration'
    RULE   = text (what is enumerated, what makes a case non-trivial)
    def shards(tier)     -> list of small picklable shard descriptors (a partition of the explored space)
    def run(shard, ctx)  -> explores its shard completely, reporting to ctx

Shards run in forked worker processes.  Everything a run explored is counted in the Ctx, merged and written to
evidence/<id>.json.  Any unexpected exception inside a shard is itself a violation (the library refused a valid
operation).  Known findings (known_findings.txt) are matched by exact key.
"""
import os, sys, time, json, glob, hashlib, importlib, traceback, signal, multiprocessing as mp, warnings, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
SHARD_LIMIT = {'quick': int(os.environ.get('VERIF_SHARD_LIMIT', 400)), 'thorough': 3 * 3600}
HARD_LIMIT = {'quick': 780, 'thorough': 6 * 3600}


def h64(x):
    if not isinstance(x, (str, bytes)): x = repr(x)
    if isinstance(x, str): x = x.encode('utf8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class StopShard(Exception):
    pass


class Ctx(object):
    MAXV = 12

    def __init__(self, prop, tier, seed, shard):
        self.prop, self.tier, self.seed, self.shard = prop, tier, seed, shard
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self._distinct = set()
        self.samples = []
        self.violations = {}
        self.notes = {}
        self.where = None   # free-form description of the current case (used for unexpected exceptions)

    # --- counting
    def state(self, canon): self._states.add(h64(canon))

    def new_state(self, canon):
        h = h64(canon)
        if h in self._states: return False
        self._states.add(h); return True

    def trans(self, n=1): self.transitions += n
    def trace(self, n=1): self.traces += n

    def ev(self, key=None):
        """one evaluated case; `key` (if not None) identifies a distinct non-trivial one"""
        self.evaluations += 1
        if key is not None: self._distinct.add(h64(key))

    def sample(self, s, limit=2):
        if len(self.samples) < limit: self.samples.append(s if isinstance(s, str) else repr(s))

    def note(self, k, n=1): self.notes[k] = self.notes.get(k, 0) + n

    # --- reporting
    def fail(self, key, msg, case=None):
        """key: stable identity of the failing input/call site/history (matched with known_findings.txt)"""
        if key not in self.violations:
            self.violations[key] = {'key': key, 'msg': str(msg)[:3000],
                                    'case': (case if case is not None else self.where)}
        if len(self.violations) >= self.MAXV: raise StopShard()

    def check(self, cond, key, msg, case=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, case)
        return bool(cond)

    def result(self):
        return dict(states=self._states, transitions=self.transitions, traces=self.traces,
                    evaluations=self.evaluations or self.transitions, distinct=self._distinct or self._states, samples=self.samples,
                    violations=self.violations, notes=self.notes)


def load(prop):
    fs = glob.glob(os.path.join(VERIF, 'checks', prop.lower() + '_*.py'))
    assert len(fs) == 1, "no unique check module for %s: %s" % (prop, fs)
    return importlib.import_module('checks.' + os.path.basename(fs[0])[:-3])


def _worker(conn, prop, tier, seed, shard):
    try:
        os.setpgid(0, 0)
    except Exception: pass
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(dn, 1); os.dup2(dn, 2)
    warnings.simplefilter('ignore')
    ctx = Ctx(prop, tier, seed, shard)
    t0 = time.time()
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))   # runaway growth is a failure of the case, not of the box
        def late(*a): raise TimeoutError('no answer from the library within the time allowed for this shard')
        signal.signal(signal.SIGALRM, late)
        signal.alarm(SHARD_LIMIT[tier])
        import numpy as np
        np.seterr(all='ignore')
        np.random.seed(12345); random.seed(12345)
        load(prop).run(shard, ctx)
    except StopShard:
        pass
    except BaseException as e:
        tb = traceback.format_exc()
        ctx.violations.setdefault('exception:' + repr(shard)[:200], {
            'key': 'exception:' + repr(shard)[:200], 'msg': 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-4000:]),
            'case': ctx.where})
    signal.alarm(0)
    r = ctx.result(); r['shard'] = repr(shard); r['t'] = time.time() - t0
    conn.send(r); conn.close()
    os._exit(0)


def known_findings(prop):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                # known: property=<id> key=<<key>> description
                k = line.split('key=<<', 1)[1]
                key, desc = k.split('>>', 1)
                out[key] = desc.strip()
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None; only = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier': tier = argv[i + 1]; i += 2
        elif argv[i] == '--replay': replay = json.load(open(argv[i + 1])); i += 2
        elif argv[i] == '--shard': only = argv[i + 1]; i += 2
        else: raise SystemExit('bad argument ' + argv[i])
    t0 = time.time()
    outdir = os.path.join(VERIF, 'out'); os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    results = []; level = 'exploration'; mod = None; rule = ''
    warnings.simplefilter('ignore')
    try:
        if not os.environ.get('VERIF_DEBUG'):
            saved = os.dup(2); dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
        import pygsti
        assert os.path.abspath(pygsti.__file__).startswith(os.path.abspath(REPO)), pygsti.__file__
        mod = load(prop)
        level = mod.LEVEL; rule = mod.RULE
        shards = list(mod.shards(tier))
    except BaseException as e:
        if mod is None and not isinstance(e, AssertionError):
            results.append(dict(states=set(), transitions=0, traces=0, evaluations=0, distinct=set(), samples=[],
                                notes={}, shard='import', t=0, violations={'import': {
                                    'key': 'import', 'msg': traceback.format_exc()[-3000:], 'case': 'import pygsti'}}))
            shards = []
        else: raise
    if only: shards = [s for s in shards if only in repr(s)]
    if replay: shards = [s for s in shards if repr(s) == replay['shard']]
    if not hasattr(mod, 'ORDERED'): random.Random(seed).shuffle(shards)
    limit = HARD_LIMIT[tier]
    nproc = int(os.environ.get('VERIF_PROCS', os.cpu_count() or 8))
    pend = list(shards); live = []
    timedout = []
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    while pend or live:
        while pend and len(live) < nproc:
            s = pend.pop(0)
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=(b, prop, tier, seed, s)); p.start(); b.close()
            live.append((p, a, s))
        ready = wait([a for _, a, _ in live], timeout=5)
        for item in list(live):
            p, a, s = item
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    p.join()
                    results.append(dict(states=set(), transitions=0, traces=0, evaluations=0, distinct=set(),
                                        samples=[], notes={}, shard=repr(s), t=0, violations={'crash:' + repr(s)[:200]: {
                                            'key': 'crash:' + repr(s)[:200],
                                            'msg': 'the process exploring this shard died (exit code %s)' % p.exitcode,
                                            'case': repr(s)}}))
                p.join(); a.close(); live.remove(item)
        if time.time() - t0 > limit:
            for p, a, s in live:
                try: os.kill(p.pid, signal.SIGKILL)
                except Exception: pass
                timedout.append(s)
            timedout += pend
            break
    kn = known_findings(prop)
    states = set(); distinct = set(); tr = tc = ev = 0; samples = []; viol = {}; notes = {}
    for r in sorted(results, key=lambda r: r['shard']):
        states |= r['states']; distinct |= r['distinct']; tr += r['transitions']; tc += r['traces']
        ev += r['evaluations']
        if r['samples'] and len(samples) < 8: samples.append(r['samples'][0])
        for k, v in r['notes'].items(): notes[k] = notes.get(k, 0) + v
        for k, v in r['violations'].items():
            v['shard'] = r['shard']; viol.setdefault(k, v)
    for s in timedout[:3]:
        viol.setdefault('timeout:' + repr(s)[:150], {
            'key': 'timeout:' + repr(s)[:150], 'shard': repr(s), 'case': repr(s),
            'msg': 'this shard did not terminate within the %d s limit of the whole run' % limit})
    rc = 0; nv = 0
    for k in sorted(viol):
        v = viol[k]
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[k], k)); continue
        nv += 1; rc = 1
        if nv <= (12 if os.environ.get('VERIF_VERBOSE') else 5):
            path = os.path.join(outdir, 'replay-%s-%d.json' % (prop, nv))
            with open(path, 'w') as f: json.dump(v, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key : %s" % k); print("  case: %s" % str(v['case'])[:600]); print("  what: %s" % v['msg'][-900:])
    cov = {'samples': samples or ['(none)'], 'exhaustive': not timedout, 'shards': len(shards)}
    if level == 'model_checking':
        cov.update(states=len(states), transitions=tr, traces_validated_against_impl=tc)
        if ev: cov.update(evaluations=ev)
    else:
        cov.update(evaluations=ev, distinct_nontrivial=len(distinct))
    cov['rule'] = rule
    if notes: cov['breakdown'] = notes
    evd = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
           'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': nv}
    if not replay and not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f: json.dump(evd, f, indent=1)
    slow = sorted(((r['t'], r['shard']) for r in results), reverse=True)[:3]
    print("%s %s: %s in %.1fs; %s" % (prop, tier, 'ok' if rc == 0 else '%d violation(s)' % nv, time.time() - t0,
                                     {k: v for k, v in cov.items() if isinstance(v, (int, bool))}))
    if os.environ.get('VERIF_VERBOSE'): print("slowest shards:", slow); print(notes)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main(sys.argv[1:])
