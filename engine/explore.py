"""replay-based exploration of all paths of a harness, in parallel"""
import gc
import importlib
import multiprocessing as mp
import os
import sys
import time
import traceback
from . import sym, shims, state, env as envm
from .sym import Ctx, PathAbort, Unsupported, Inconclusive, SpecFail, EngineSignal

REPO = os.environ.get('VP_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'

_FUNCS = set()
TOOL = 3


def _on_start(code, off):
    fn = code.co_filename
    if fn.startswith(REPO + '/'):
        _FUNCS.add('%s:%s' % (fn[len(REPO) + 1:], code.co_qualname))
    return sys.monitoring.DISABLE


def start_monitor():
    m = sys.monitoring
    if m.get_tool(TOOL) is None:
        m.use_tool_id(TOOL, 'vp')
    m.register_callback(TOOL, m.events.PY_START, _on_start)
    m.set_events(TOOL, m.events.PY_START)


def run_path(mod, job, tier, seed, prefix):
    """-> (status, ctx, env, info)"""
    c = Ctx(prefix)
    sym.set_ctx(c)
    state.restore()
    e = envm.SymEnv(c, job, tier, seed)
    info = None
    try:
        mod.run(e, job)
        st = 'ok'
    except PathAbort:
        st = 'abort'
    except envm.Violation as v:
        st, info = 'violation', (v.label, v.models)
    except Unsupported as x:
        st, info = 'unsupported', '%s\n%s' % (x, ''.join(traceback.format_tb(x.__traceback__)[-6:]))
    except (Inconclusive, SpecFail) as x:
        st, info = 'inconclusive', '%r\n%s' % (x, ''.join(traceback.format_tb(x.__traceback__)[-6:]))
    except Exception as x:
        tb = ''.join(traceback.format_tb(x.__traceback__)[-6:])
        ms = None
        label = 'exception:%s: %s' % (type(x).__name__, x)
        again = e.seen.get(label, 0) >= 3
        try:
            ms = [] if again else e.models()
        except EngineSignal as y:
            tb += repr(y)
        if ms or again:
            st, info = 'violation', (label, ms)
        else:
            st, info = 'inconclusive', 'exception without model: %r\n%s' % (x, tb)
        e.tb = tb
    except RecursionError as x:
        st, info = 'unsupported', 'recursion'
    return st, c, e, info


class Result:
    def __init__(self):
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.labels = {}
        self.checks = {}
        self.trivial = 0
        self.errors = []
        self.violations = []
        self.samples = []
        self.funcs = set()
        self.stats = {}

    def merge(self, o):
        self.paths += o.paths
        self.aborted += o.aborted
        self.forks += o.forks
        self.trivial += o.trivial
        for k, v in o.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for k, v in o.checks.items():
            self.checks[k] = self.checks.get(k, 0) + v
        if len(self.errors) < 20:
            self.errors += o.errors
        self.violations += o.violations
        self.samples += o.samples
        self.funcs |= o.funcs
        for k, v in o.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v


_MOD = None
MEM = [0]


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) >> 8   # MB


def tidy(mem):
    """keep what a worker holds bounded"""
    if rss() > mem[0] + 250:
        gc.collect()
        if rss() > 1500:
            sym.reset_caches()
            gc.collect()
        mem[0] = rss()


def subtree(args):
    """explore below `prefix` for at most `budget` seconds"""
    jobidx, job, tier, seed, prefixes, budget, nsamples = args
    res = Result()
    st0 = dict(sym.STATS)
    stack = list(prefixes)
    t0 = time.time()
    gc.disable()
    n = 0
    envm.SymEnv.seen = seen = {}
    while stack:
        prefix = stack.pop()
        st, c, e, info = run_path(_MOD, job, tier, seed, prefix)
        n += 1
        stack.extend(c.alternatives)
        res.forks += c.forks
        if st == 'abort':
            res.aborted += 1
        else:
            res.paths += 1
        for l in e.labels:
            res.labels[l] = res.labels.get(l, 0) + 1
        for l, k in e.checks.items():
            res.checks[l] = res.checks.get(l, 0) + k
        res.trivial += e.trivial
        if st == 'violation':
            k = seen[info[0]] = seen.get(info[0], 0) + 1
            if info[1]:
                res.violations.append(dict(job=job, label=info[0], models=info[1], trace=getattr(e, 'tb', '')))
            if k >= 40 or len(res.violations) >= 12:
                break
        elif st in ('unsupported', 'inconclusive'):
            if len(res.errors) < 5:
                res.errors.append((st, job.get('name'), info))
        elif st == 'ok' and nsamples > 0 and (n & (n - 1)) == 0:
            ms = e.models(count=1, timeout=2000)
            if ms:
                nsamples -= 1
                res.samples.append(dict(job=job, inputs=ms[0], labels=sorted(e.labels)))
        if len(sym._KEEP) > 200000:
            sym.reset_caches()
            gc.collect()
        elif n % 512 == 0:
            gc.collect()
        tidy(MEM)
        if time.time() - t0 > budget:
            break
    sym.set_ctx(None)
    res.funcs = set(_FUNCS)
    res.stats = {k: sym.STATS[k] - st0[k] for k in st0}
    return jobidx, res, stack


def load(prop):
    global _MOD
    from . import transform
    sys.setrecursionlimit(20000)
    transform.install({'elementstx': REPO, 'bitcointx': SITE,
                       'harness': os.path.dirname(os.path.dirname(os.path.abspath(__file__)))})
    start_monitor()
    import warnings
    warnings.simplefilter('ignore')
    _MOD = importlib.import_module('harness.' + prop)
    state.snapshot(REPO)
    return _MOD


def explore(mod, jobs, tier, seed, deadline, nproc=8, confirm=None):
    """-> (Result, complete); stops at the first violation that confirm(violation) confirms, or some time after the first"""
    fresh = 0       # violations that confirm has seen
    trouble = None  # when the first of them, or many errors, came
    total = Result()
    perjob = {}
    queue = []      # (jobidx, prefix)
    for i, j in enumerate(jobs):
        queue.append((i, [()]))
        perjob[i] = [0, 0.0]
    ctx = mp.get_context('fork')
    gc.freeze()
    pool = ctx.Pool(nproc)
    pend = []
    complete = True
    try:
        while queue or pend:
            while queue and len(pend) < nproc + 2:
                i, prefixes = queue.pop()
                n = perjob[i][0]
                idle = len(queue) + len(pend) < nproc
                budget = 0.3 if idle else 3.0
                ns = 3 if n < 4 else (1 if n < 40 else 0)
                perjob[i][0] += 1
                pend.append((time.time(), pool.apply_async(subtree, ((i, jobs[i], tier, seed, prefixes, budget, ns),))))
            done = [p for p in pend if p[1].ready()]
            if not done:
                time.sleep(0.005)
            for p in done:
                pend.remove(p)
                i, res, left = p[1].get()
                perjob[i][1] += time.time() - p[0]
                total.merge(res)
                if left:
                    # hand back the remaining work in a few chunks
                    k = min(len(left), 8)
                    for c in range(k):
                        queue.append((i, left[c::k]))
            while fresh < len(total.violations):
                fresh += 1
                if confirm is None or confirm(total.violations[fresh - 1]):
                    return total, False
            if trouble is None and (total.violations or len(total.errors) >= 20):
                trouble = time.time()
            if trouble is not None and time.time() > trouble + (240 if total.violations else 60):
                complete = False
                break
            if time.time() > deadline:
                complete = not queue and not pend
                break
    finally:
        pool.terminate()
        pool.join()
        total.perjob = {jobs[i]['name']: round(v[1], 2) for i, v in perjob.items()}
    return total, complete
