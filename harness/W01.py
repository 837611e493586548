"""W01: Blech32 encoding"""
from elementstx import liquid_addr
from harness.refblech import ref_encode, CHARS

BOUNDS = ('every content of programs of 20, 32, 53, 65 and several other lengths from 2 to 73 bytes (thorough: every length '
          '0..75), versions 0..31 (quick: all versions for the lengths 53 and 65, versions 0, 1, 2, 16, 17 and 31 otherwise), '
          'prefixes el, lq and ert/ex-like prefixes of 1..5 characters')
ASSUMPTIONS = []


def jobs(tier):
    th = tier == 'thorough'
    out = []
    lens = range(0, 76) if th else [0, 1, 2, 3, 19, 20, 32, 40, 41, 52, 53, 54, 64, 65, 66, 72, 73, 74]
    for n in lens:
        for hrp in ['el', 'lq'] + (['tex', 'a'] if th or n in (53, 65, 2) else []):
            vs = range(32) if th or n in (53, 65) else [0, 1, 2, 16, 17, 31]
            ok = any(ok_len(v, n) for v in vs)
            out.append({'name': '%s-%d' % (hrp, n), 'hrp': hrp, 'n': n, 'vers': list(vs), 'reach': ['encoded'] if ok else ['refused']})
    return out


def ok_len(v, n):
    if v == 0:
        return n in (53, 65)
    return v <= 16 and 2 <= n <= 73


def run(env, job):
    prog = env.bytes('program', job['n'])
    v = env.choose('version', job['vers'])
    hrp = job['hrp']
    s = liquid_addr.encode(hrp, v, prog)
    if not ok_len(v, job['n']):
        env.check(s is None, 'not-encodable')
        env.reach('refused')
        return
    env.check(s is not None, 'encodable')
    want = ref_encode(hrp, v, prog)
    env.check(len(s) == len(want), 'length')
    env.check(s == want, 'reference-string')
    env.check(s[:len(hrp) + 1] == hrp + '1', 'prefix')
    gv, gp = liquid_addr.decode(hrp, s)
    env.check(gv is not None and gv == v, 'version-back')
    env.check(gp is not None and len(gp) == job['n'] and gp == prog, 'program-back')
    up = s.upper()
    gv, gp = liquid_addr.decode(hrp, up)
    env.check(gv is not None and gv == v and len(gp) == job['n'] and gp == prog, 'upper-case-back')
    other = 'lq' if hrp == 'el' else 'el'
    env.check(liquid_addr.decode(other, s) == (None, None), 'other-prefix-refused')
    env.reach('encoded')
