"""S05: parsing arbitrary bytes as a transaction is lossless or an error"""
from harness.lib import CElementsTransaction, CElementsMutableTransaction

BOUNDS = ('every buffer of length 0..21 (thorough 0..26), nothing assumed; and buffers that start with any version, a flag '
          'byte of 0, 1 or any other value, and up to 2 inputs of any hash, index with all flag combinations, sequence, '
          'issuance with amounts null, explicit, committed or with an invalid prefix, script of 0..2 bytes, then an output '
          'count 0..2, followed, without the witness flag, by arbitrary bytes: none, one, and one less than up to 3 (thorough 7) '
          'more than what null outputs and the lock time need, and the lengths of committed and explicit outputs; with '
          'the witness flag, by null outputs, any lock time, null witness items up to the last 6 (thorough 8) items and '
          'arbitrary bytes: none, one, and one less than up to 1 (thorough 2) more than what null witnesses need')
ASSUMPTIONS = []

SZ = {'n': 1, 'e': 9, 'c': 33, 'x': 1}


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for n in range(27 if th else 22):
        out.append({'name': 'any-%d' % n, 'op': 'any', 'n': n, 'reach': ['parsed'] if n >= 11 else []})
    ins = [[], [(0, None)], [(1, None)], [(0, 'nn')], [(0, 'en')], [(0, 'ne')], [(0, 'cc')], [(0, 'xn')], [(0, 'nx')],
           [(0, 'cb')], [(0, None), (0, None)], [(0, 'en'), (0, None)], [(0, 'cb'), (0, 'ee')]]
    if th:
        ins += [[(2, None)], [(1, 'ee')], [(0, 'ec')], [(0, 'ce')], [(0, 'nc')], [(0, 'cn')], [(1, 'cb')],
                [(1, 'nn'), (0, 'en')], [(0, 'en'), (0, 'ce')], [(0, None), (0, 'cb')], [(0, None)] * 3]
    for i in ins:
        for nout in (0, 1, 2):
            for fl in (0, 1, 2):
                need = 4 * nout + 4
                if fl == 2:
                    es = [need]
                elif fl == 1:
                    full = 4 * len(i) + 2 * nout
                    need = min(full, 8 if th else 6)
                    es = sorted({0, 1, max(need - 1, 0)} | set(range(need, need + (3 if th else 2))) | ({5, 7} if full == 0 else set()))
                else:
                    extra = (7 if nout < 2 else 5) if th else (3 if nout < 2 else 2)
                    es = sorted({0, 1, need - 1} | set(range(need, need + extra + 1)))
                    if nout == 1 and (th or len(i) < 2):
                        # one committed field; all explicit and null nonce (the usual explicit output)
                        es += [need + 32, need + 40] + ([need + 64, need + 96, need + 41] if th else [])
                for e in es:
                    out.append({'nulls': full - need if fl == 1 else 0, 'name': 'in%s-out%d-flag%d-rest%d' % ('.'.join('%d%s' % (s, k) for s, k in i) or '0', nout,
                                                                     fl, e),
                                'op': 'gram', 'ins': i, 'nout': nout, 'flag': fl, 'rest': e,
                                'reach': ['parsed'] if e == need and fl == 0 and
                                not any(k in ('nn', 'xn', 'nx') for _, k in i) else []})
    return out


def build(env, job):
    fl = job['flag']
    if fl > 1:
        b = env.bytes('flag', 1)
        env.assume(b[0] > 1)
    else:
        b = bytes([fl])
    data = env.bytes('version', 4) + b + bytes([len(job['ins'])])
    for slen, kind in job['ins']:
        idx = env.bytes('index', 4)
        if kind == 'cb':
            env.assume(idx == b'\xff\xff\xff\xff')
        elif kind is None:
            env.assume(idx[3] < 0x80)
        else:
            env.assume(idx[3] >= 0x80)
            env.assume(idx != b'\xff\xff\xff\xff')
        data = data + env.bytes('hash', 32) + idx + bytes([slen]) + env.bytes('script', slen) + env.bytes('seq', 4)
        if kind is not None and kind != 'cb':
            data = data + env.bytes('issuance', 64)
            for k in kind:
                f = env.bytes('amount', SZ[k])
                if k == 'n':
                    env.assume(f[0] == 0)
                elif k == 'e':
                    env.assume(f[0] == 1)
                elif k == 'c':
                    env.assume((f[0] == 8) | (f[0] == 9))
                else:
                    env.assume((f[0] > 9) | ((f[0] > 1) & (f[0] < 8)))
                data = data + f
    data = data + bytes([job['nout']])
    if fl == 1:
        # null outputs with any script of one byte: what is arbitrary here is the witness
        for _ in range(job['nout']):
            data = data + b'\0\0\0\x01' + env.bytes('outscript', 1)
        data = data + env.bytes('locktime', 4) + bytes(job['nulls'])
    return data + env.bytes('rest', job['rest'])


def run(env, job):
    data = env.bytes('data', job['n']) if job['op'] == 'any' else build(env, job)
    cls = CElementsMutableTransaction if env.choose('mutable', [False, True] if len(data) % 4 == 0 else [False]) else \
        CElementsTransaction
    try:
        t = cls.deserialize(data)
    except Exception:
        return
    env.reach('parsed')
    env.check(t.serialize() == data, 're-encoding')
    env.check(t.has_witness() == (data[4] == 1), 'flag-byte')
    env.check(len(t.vin) == data[5], 'input-count')
