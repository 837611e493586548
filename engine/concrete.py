"""Concrete environment: runs a harness on given inputs against the real,
uninstrumented code (no solver involved).  Used to replay counterexamples and
to validate sampled symbolic paths.

usage: python concrete.py FILE.json        -> prints REPRODUCED / NOT-REPRODUCED
       python concrete.py --batch FILE     -> one JSON result per input line
"""
import hashlib
import importlib
import json
import os
import sys
import traceback


# os.urandom, which defaults of the code under test refer to, as something a harness can answer
_urandom = os.urandom
HOOK = [None]


def _os_urandom(n):
    return _urandom(n) if HOOK[0] is None else HOOK[0](n)


os.urandom = _os_urandom


class CheckFailed(BaseException):
    pass


class Assumption(BaseException):
    pass


class ConcEnv:
    sym = False

    def __init__(self, inputs, job, tier):
        self.inputs = inputs
        self.job = job
        self.tier = tier
        self._names = {}
        self.labels = set()

    def _get(self, name, default):
        n = self._names.get(name, 0) + 1
        self._names[name] = n
        name = name if n == 1 else '%s.%d' % (name, n)
        return self.inputs.get(name, default)

    def bytes(self, name, n):
        # a value the counterexample does not fix: anything
        r = self._get(name, None)
        if r is None:
            seed = hashlib.sha256(('%s/%d' % (name, self._names[name])).encode()).digest()
            r = bytes([17]) + (seed * (n // 32 + 1))[1:n] if n else b''
        return r

    def int(self, name, lo, hi): return self._get(name, max(lo, min(hi, 0)))
    def bool(self, name): return bool(self._get(name, False))
    def str(self, name, n, maxcode=127): return self._get(name, 'a' * n)
    def choose(self, name, options):
        k = self._get(name, 0)
        if k >= len(options):
            raise Assumption()
        return options[k]

    def split(self, x): return x

    def assume(self, c):
        if not c:
            raise Assumption()

    def check(self, c, label):
        if not c:
            raise CheckFailed(label)

    def fail(self, label):
        raise CheckFailed(label)

    def certain(self, c):
        return bool(c)

    def urandom(self, f):
        HOOK[0] = f

    def reach(self, label):
        self.labels.add(label)


def enc(v):
    if isinstance(v, bytes):
        return {'hex': v.hex()}
    return v


def dec(v):
    if isinstance(v, dict):
        return bytes.fromhex(v['hex'])
    return v


def run_one(prop, job, tier, inputs):
    HOOK[0] = None
    mod = importlib.import_module('harness.' + prop)
    env = ConcEnv({k: dec(v) for k, v in inputs.items()}, job, tier)
    try:
        mod.run(env, job)
        return 'ok', sorted(env.labels), ''
    except CheckFailed as e:
        return 'violation', sorted(env.labels), str(e)
    except Assumption:
        return 'assume', sorted(env.labels), ''
    except Exception as e:
        return 'violation', sorted(env.labels), 'exception:%s: %s' % (type(e).__name__, e) + '\n' + traceback.format_exc()


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter('ignore')
    if sys.argv[1] == '--batch':
        with open(sys.argv[2]) as f:
            for line in f:
                d = json.loads(line)
                r = run_one(d['property'], d['job'], d.get('tier', 'quick'), d['inputs'])
                print(json.dumps(r), flush=True)
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    st, labels, msg = run_one(d['property'], d['job'], d.get('tier', 'quick'), d['inputs'])
    print('property %s job %s' % (d['property'], d['job'].get('name')))
    for k, v in d['inputs'].items():
        print('  %s = %s' % (k, v['hex'] if isinstance(v, dict) else v))
    if st == 'violation':
        print('REPRODUCED: %s' % msg)
        return 1
    print('NOT-REPRODUCED (%s)' % st)
    return 0


if __name__ == '__main__':
    sys.exit(main())
