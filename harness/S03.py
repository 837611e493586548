"""S03: output and witness records"""
from io import BytesIO
from harness.lib import (CElementsTxOut, CElementsMutableTxOut, CElementsTxInWitness, CElementsMutableTxInWitness,
                         CElementsTxOutWitness, CElementsMutableTxOutWitness, mk_txout, mk_inwit, mk_outwit,
                         ref_txout, ref_inwit, ref_outwit, txout, inwit, outwit, inwit_null, outwit_null,
                         same_txout, same_inwit, same_outwit)

KINDS = ('null', 'explicit', 'commitment')
BOUNDS = ('outputs: asset, value and nonce each null, explicit or committed, every content, scripts of 0, 1, 3, 76 and 253 '
          'bytes (thorough 0..8, 76, 252..256, 65536 with the first and last 8 bytes symbolic); witness records: proofs '
          'of 0, 1, 2, 253 bytes and stacks of 0..2 items of 0..2 bytes, every content, immutable and mutable; decoding '
          'of arbitrary buffers of length 0..34 (output), 0..9 (witness records) and, for outputs, of the lengths of all '
          'combinations of field kinds with scripts of up to 2 bytes (thorough: 0..48, 0..12, 4 bytes)')
ASSUMPTIONS = []

OUTW = [(0, 0), (1, 0), (0, 1), (2, 3), (253, 0), (0, 253)]
INW = [(0, 0, (), ()), (1, 0, (), ()), (0, 1, (), ()), (0, 0, (1,), ()), (0, 0, (), (1,)), (0, 0, (0,), ()),
       (0, 0, (), (0,)), (2, 3, (1, 2), (2, 0)), (1, 1, (2, 0), (1, 1)), (253, 0, (), (1,)), (0, 253, (1,), ()),
       (0, 0, (253,), ()), (0, 0, (), (253,))]


def jobs(tier):
    th = tier == 'thorough'
    out = []
    scripts = [0, 1, 3, 76, 253] if not th else list(range(9)) + [76, 252, 253, 254, 255, 256, 65536]
    for a in KINDS:
        for v in KINDS:
            for n in KINDS:
                for s in scripts:
                    if s > 3 and not th and len({a, v, n}) != 1:
                        continue
                    for m in (False, True):
                        out.append({'name': 'txout-%s-%s-%s-%d-%s' % (a, v, n, s, 'mut' if m else 'imm'), 'op': 'out',
                                    'kinds': (a, v, n), 'script': s, 'mut': m, 'reach': ['ok']})
    outw = OUTW if not th else [(a, b) for a in (0, 1, 2, 252, 253) for b in (0, 1, 2, 253)]
    inw = list(INW)
    if th:
        st = [(), (0,), (1,), (2,), (0, 1), (1, 1), (1, 0, 2)]
        inw += [(a, k, s, p) for a in (0, 1, 2) for k in (0, 1, 2) for s in st for p in st]
        inw += [(65536, 0, (), ())]
        inw = list(dict.fromkeys(inw))
    for w in outw:
        for m in (False, True):
            out.append({'name': 'outwit-%d-%d-%s' % (w[0], w[1], 'mut' if m else 'imm'), 'op': 'outw', 'shape': w,
                        'mut': m, 'reach': ['ok']})
    for k, w in enumerate(inw):
        for m in (False, True):
            out.append({'name': 'inwit-%d-%s' % (k, 'mut' if m else 'imm'), 'op': 'inw', 'shape': w, 'mut': m,
                        'reach': ['ok']})
    for n in range(49 if th else 35):
        out.append({'name': 'decode-out-%d' % n, 'op': 'dec', 'what': 'out', 'n': n, 'reach': ['decoded'] if n > 3 else []})
    for n in sorted({1 * (3 - k) + sum((33, 9, 33)[i] for i in range(3) if c >> i & 1) + 1 + s
                     for s in range(5 if th else 3) for c in range(8) for k in [bin(c).count('1')]} |
                    {100, 101, 102, 103, 104}):
        if n > (48 if th else 34):
            out.append({'name': 'decode-out-%d' % n, 'op': 'dec', 'what': 'out', 'n': n, 'script': 6 if th else 4,
                        'reach': []})
    for n in range(13 if th else 10):
        out.append({'name': 'decode-outw-%d' % n, 'op': 'dec', 'what': 'outw', 'n': n, 'reach': ['decoded'] if n > 1 else []})
        out.append({'name': 'decode-inw-%d' % n, 'op': 'dec', 'what': 'inw', 'n': n, 'reach': ['decoded'] if n > 3 else []})
    return out


CLS = {'out': (CElementsTxOut, CElementsMutableTxOut), 'outw': (CElementsTxOutWitness, CElementsMutableTxOutWitness),
       'inw': (CElementsTxInWitness, CElementsMutableTxInWitness)}


def roundtrip(env, what, o, want, same, spec, null):
    data = o.serialize()
    env.check(data == want, 'encoding')
    env.check(o.is_null() == null, 'null-test')
    for cls in CLS[what]:
        f = BytesIO(want + b'\x5a\x01')
        r = cls.stream_deserialize(f)
        env.check(f.tell() == len(want), 'consumed-length')
        env.check(same(r, spec), 'decoded-fields')
        env.check(r.serialize() == want, 're-encoding')
        env.check(r.is_null() == null, 'decoded-null-test')
        env.check(isinstance(r, cls), 'decoded-class')
    env.reach('ok')


def run(env, job):
    op = job['op']
    if op == 'out':
        a, v, n = job['kinds']
        s = job['script']
        o = txout(env, 'out', a, v, n, s if s < 1000 else 0)
        if s >= 1000:
            o.script = env.bytes('head', 8) + b'\x51' * (s - 16) + env.bytes('tail', 8)
        null = a == 'null' and v == 'null' and n == 'null' and s == 0
        roundtrip(env, 'out', mk_txout(o, job['mut']), ref_txout(o), same_txout, o, null)
    elif op == 'outw':
        w = outwit(env, 'w', job['shape'])
        roundtrip(env, 'outw', mk_outwit(w, job['mut']), ref_outwit(w), same_outwit, w, outwit_null(w))
    elif op == 'inw':
        sh = job['shape']
        if sh[0] > 1000:
            w = inwit(env, 'w', (8,) + sh[1:])
            w.amount_proof = w.amount_proof + b'\x77' * (sh[0] - 8)
        else:
            w = inwit(env, 'w', sh)
        roundtrip(env, 'inw', mk_inwit(w, job['mut']), ref_inwit(w), same_inwit, w, inwit_null(w))
    else:
        data = env.bytes('data', job['n'])
        f = BytesIO(data)
        cls = CLS[job['what']][0]
        try:
            r = cls.stream_deserialize(f)
        except Exception:
            return
        env.reach('decoded')
        used = f.tell()
        env.check(used <= job['n'], 'overrun')
        env.check(r.serialize() == data[:used], 're-encoding-of-arbitrary-input')
        if job['what'] == 'out':
            env.check(r.is_null() == (data[:used] == b'\x00\x00\x00\x00'), 'decoded-null')
        elif job['what'] == 'outw':
            env.check(r.is_null() == (data[:used] == b'\x00\x00'), 'decoded-null')
        else:
            env.check(r.is_null() == (data[:used] == b'\x00\x00\x00\x00'), 'decoded-null')
