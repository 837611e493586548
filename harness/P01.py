"""P01: peg-out scripts are recognised exactly by their grammar"""
from harness.lib import CElementsScript

BOUNDS = ('every script of length 0..37 (thorough 0..42) with nothing assumed beyond the first byte being any value; scripts '
          'of the return opcode, a push of the genesis hash in any of the four push encodings with the length bytes '
          'arbitrary, and a rest of 0..4 (thorough 0..7) arbitrary bytes or of the lengths that a second push of 20..253 '
          'bytes needs (its content arbitrary)')
ASSUMPTIONS = []

HDR = {'direct': 1, 'pd1': 2, 'pd2': 3, 'pd4': 5}


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for n in range(43 if th else 38):
        out.append({'name': 'any-%d' % n, 'op': 'any', 'n': n, 'reach': ['pegout'] if n >= 36 else []})
    for h in HDR:
        for r in list(range(8 if th else 5)) + [21, 23, 26] + ([76, 78, 254, 257] if th else [78]):
            out.append({'name': 'gen-%s-%d' % (h, r), 'op': 'gen', 'hdr': h, 'rest': r, 'reach': ['pegout'] if r > 1 else []})
    return out


def ref_push(s, i):
    """one element of the script at i: (ok, opcode, data or None, next)"""
    if i >= len(s):
        return False, 0, None, i
    op = s[i]
    i += 1
    if op > 78:
        return True, op, None, i
    if op < 76:
        k, n = 0, op
    elif op == 76:
        k = 1
    elif op == 77:
        k = 2
    else:
        k = 4
    if k:
        if len(s) - i < k:
            return False, op, None, i
        n = int.from_bytes(s[i:i + k], 'little')
        i += k
    if n > len(s) - i:
        return False, op, None, i
    return True, op, s[i:i + n], i + n


def ref_pegout(s):
    ok, op, d, i = ref_push(s, 0)
    if not ok or op != 0x6a:
        return None
    ok, op, gen, i = ref_push(s, i)
    if not ok or gen is None or len(gen) != 32:
        return None
    ok, op, spk, i = ref_push(s, i)
    if not ok or spk is None or len(spk) == 0:
        return None
    return gen, spk


def run(env, job):
    if job['op'] == 'any':
        d = env.bytes('script', job['n'])
    else:
        h = job['hdr']
        op = {'direct': b'', 'pd1': b'\x4c', 'pd2': b'\x4d', 'pd4': b'\x4e'}[h]
        d = b'\x6a' + op + env.bytes('len', HDR[h] - len(op)) + env.bytes('genesis', 32) + env.bytes('rest', job['rest'])
    s = CElementsScript(d)
    r = s.get_pegout_data()
    want = ref_pegout(d)
    if want is None:
        env.check(r is None, 'not-a-pegout')
        env.check(s.is_pegout() == False, 'is-not-pegout')  # noqa: E712
    else:
        env.check(r is not None, 'pegout')
        gen, spk = r
        env.check(len(gen) == 32 and gen == want[0], 'genesis-hash')
        env.check(isinstance(spk, CElementsScript) and len(spk) == len(want[1]) and spk == want[1], 'pegout-script')
        env.check(s.is_pegout() == True, 'is-pegout')  # noqa: E712
        env.reach('pegout')
