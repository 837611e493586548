"""S01: confidential asset/value/nonce fields"""
from io import BytesIO
from elementstx.core import CConfidentialAsset, CConfidentialValue, CConfidentialNonce, CAsset

KINDS = {
    # kind: (class, explicit size, commitment prefixes)
    'asset': (CConfidentialAsset, 33, (10, 11)),
    'value': (CConfidentialValue, 9, (8, 9)),
    'nonce': (CConfidentialNonce, 33, (2, 3)),
}

BOUNDS = ('constructor data and decoder input of every length 0..40 (thorough 0..80), every byte symbolic; every '
          '32-byte asset; every signed 64-bit amount')
ASSUMPTIONS = []


def jobs(tier):
    top = 41 if tier == 'quick' else 81
    out = []
    for k in KINDS:
        for n in range(top):
            out.append({'name': 'ctor-%s-%d' % (k, n), 'op': 'ctor', 'kind': k, 'n': n,
                        'reach': ['built'] if n in (0, KINDS[k][1], 33) else ['ctor-refused']})
            out.append({'name': 'decode-%s-%d' % (k, n), 'op': 'decode', 'kind': k, 'n': n,
                        'reach': ['decoded', 'decode-refused'] if n else ['decode-refused']})
    out.append({'name': 'amount', 'op': 'amount', 'reach': ['amount']})
    out.append({'name': 'asset', 'op': 'asset', 'reach': ['asset']})
    return out


def classify(env, o, data, ex, pref):
    """o was built from / decoded to `data`"""
    n = len(data)
    null = n == 0
    expl = n == ex and data[0] == 1
    comm = n == 33 and (data[0] == pref[0] or data[0] == pref[1])
    env.check(o.is_null() == null, 'null-classification')
    env.check(o.is_explicit() == expl, 'explicit-classification')
    env.check(o.is_commitment() == comm, 'commitment-classification')
    env.check(o.is_valid() == (null or expl or comm), 'valid-classification')
    env.check(o.commitment == data, 'data-kept')


def explicit_content(env, kind, o, data, ex):
    n = len(data)
    if kind == 'nonce':
        return
    expl = False
    if n == ex:
        expl = env.split(data[0] == 1)
    try:
        v = o.to_asset() if kind == 'asset' else o.to_amount()
    except Exception:
        env.check(not expl, 'explicit-content-refused')
        return
    env.check(expl, 'content-of-non-explicit-field')
    if kind == 'asset':
        env.check(isinstance(v, CAsset), 'asset-type')
        env.check(v.data == data[1:], 'explicit-asset')
    else:
        env.check(v == int.from_bytes(data[1:], 'big', signed=True), 'explicit-amount')


def run(env, job):
    op = job['op']
    if op == 'amount':
        a = env.int('amount', -2**63, 2**63 - 1)
        for o in (CConfidentialValue(a), CConfidentialValue.from_amount(a)):
            env.check(o.serialize() == b'\x01' + a.to_bytes(8, 'big', signed=True), 'amount-encoding')
            env.check(o.to_amount() == a, 'amount-round-trip')
            env.check(o.is_explicit(), 'amount-explicit')
        env.reach('amount')
        return
    if op == 'asset':
        d = env.bytes('asset', 32)
        a = CAsset(d)
        for o in (CConfidentialAsset(a), CConfidentialAsset.from_asset(a)):
            env.check(o.serialize() == b'\x01' + d, 'asset-encoding')
            env.check(o.to_asset() == a, 'asset-round-trip')
            env.check(o.to_asset().data == d, 'asset-bytes')
            env.check(o.is_explicit(), 'asset-explicit')
        env.reach('asset')
        return
    cls, ex, pref = KINDS[job['kind']]
    n = job['n']
    data = env.bytes('data', n)
    if op == 'ctor':
        arg = bytearray(data) if env.choose('as-bytearray', [False, True]) else data
        try:
            o = cls(arg)
        except Exception:
            env.check(n not in (0, ex, 33), 'good-length-refused')
            env.reach('ctor-refused')
            return
        env.check(n in (0, ex, 33), 'bad-length-accepted')
        env.reach('built')
        classify(env, o, data, ex, pref)
        env.check(o.serialize() == (data if n else b'\x00'), 'encoding')
        explicit_content(env, job['kind'], o, data, ex)
        return
    f = BytesIO(data)
    good = False
    want = None
    if n >= 1:
        b = data[0]
        if b == 0:
            want = 0
        elif b == 1:
            want = ex
        elif b == pref[0] or b == pref[1]:
            want = 33
        good = want is not None and n >= want
    try:
        o = cls.stream_deserialize(f)
    except Exception:
        env.check(not good, 'valid-encoding-refused')
        env.reach('decode-refused')
        return
    env.check(good, 'invalid-encoding-accepted')
    env.reach('decoded')
    used = max(1, want)
    env.check(f.tell() == used, 'consumed-length')
    env.check(o.serialize() == data[:used], 're-encoding')
    classify(env, o, data[:want], ex, pref)
    explicit_content(env, job['kind'], o, data[:want], ex)
