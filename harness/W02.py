"""W02: Blech32 decoding accepts only canonical, checksum-valid strings"""
from elementstx import liquid_addr
from elementstx.blech32 import Blech32Error
from elementstx.wallet import (P2WPKHElementsConfidentialAddress, P2WSHElementsConfidentialAddress,
                               P2TRElementsConfidentialAddress, CBlech32ElementsConfidentialAddress)
from bitcointx import select_chain_params
from harness.refblech import CHARS, M_CONST, residue, expand, ref_data

BOUNDS = ('all strings of 7-bit characters of 0..13 (thorough: 0..19) characters (none of which can be an address); strings of prefix, separator and 12..29, '
          '98, 117, 129 and 130 (thorough: all up to 131) alphabet characters in lower or upper case with arbitrary values; '
          'strings of the real address lengths (and of a shorter one) in which one (thorough: also two) characters are any '
          '7-bit characters that do not belong there, at each position (quick: of the short one, and of some of the long ones), and the rest arbitrary alphabet characters; '
          'substitution of one data character by any other at every (quick: for all but one shape at every seventh) position of the encodings of all programs of 20, 53 and '
          '65 bytes; prefixes el and lq')
ASSUMPTIONS = ['characters beyond the 7-bit range are covered by the rejection of any single one of them at every position of '
               'short strings only']

WALLET = {53: [(0, P2WPKHElementsConfidentialAddress)],
          65: [(0, P2WSHElementsConfidentialAddress), (1, P2TRElementsConfidentialAddress)]}


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for n in range(20 if th else 14):
        out.append({'name': 'any-%d' % n, 'op': 'any', 'n': n, 'reach': ['rejected']})
    lens = range(12, 132) if th else list(range(12, 30)) + [98, 117, 129, 130]
    for n in lens:
        for hrp in ['el', 'lq'] if th or n == 98 else ['el']:
            nb = 5 * (n - 13)
            ok = n > 13 and nb % 8 < 5 and 2 <= nb // 8 <= 73
            out.append({'name': '%s-data-%d' % (hrp, n), 'op': 'data', 'n': n, 'hrp': hrp,
                        'reach': ['accepted', 'rejected'] if ok else ['rejected']})
            if n in (12, 17, 20, 98, 117) or th:
                out.append({'name': '%s-mixed-%d' % (hrp, n), 'op': 'mixed', 'n': n, 'hrp': hrp, 'reach': ['rejected']})
    for n in (17, 98, 117) + ((18, 20, 30, 130) if th else ()):
        for p in range(n + 3) if th or n == 17 else [0, 1, 2, 3, 5, n - 11, n + 2] + [30, 70][:n // 50]:
            out.append({'name': 'one-%d-%d' % (n, p), 'op': 'one', 'n': n, 'hrp': 'el', 'at': [p], 'reach': ['rejected']})
    for p in range(6):
        out.append({'name': 'uni-%d' % p, 'op': 'uni', 'at': p, 'reach': ['rejected']})
    if th:
        for p in range(20):
            for q in range(p):
                out.append({'name': 'two-17-%d-%d' % (p, q), 'op': 'one', 'n': 17, 'hrp': 'el', 'at': [p, q], 'reach': ['rejected']})
    for n in (20, 53, 65):
        for v in ((0, 1, 16) if n != 20 else (1, 2)):
            ln = (8 * n + 4) // 5 + 13
            for p in range(ln) if th or n == 20 and v == 1 else range(v % 7, ln, 7):
                out.append({'name': 'subst-%d-%d-%d' % (n, v, p), 'op': 'subst', 'n': n, 'v': v, 'p': p, 'hrp': 'el',
                            'reach': ['rejected']})
    for n in (98, 117):
        out.append({'name': 'class-%d' % n, 'op': 'class', 'n': n, 'hrp': 'el', 'reach': ['accepted', 'rejected']})
    return out


def program(vals):
    """bytes of the 5-bit groups; the incomplete rest is cut off"""
    x = 0
    for v in vals:
        x = (x << 5) | v
    nb = 5 * len(vals)
    x = x >> (nb % 8)
    return x.to_bytes(nb // 8, 'big')


def ref_accept(hrp, vals):
    """for data values in range: acceptance condition"""
    if len(vals) < 13:
        return False
    body = vals[1:-12]
    nb = 5 * len(body)
    n, pad = nb // 8, nb % 8
    if pad >= 5 or not 2 <= n <= 73:
        return False
    v = vals[0]
    ok = v <= 16
    if pad:
        ok = ok & ((body[-1] & ((1 << pad) - 1)) == 0)
    r = residue(expand(hrp) + vals)
    if n in (53, 65):
        return ok & (((v == 0) & (r == M_CONST[False])) | ((v != 0) & (r == M_CONST[True])))
    return ok & (v != 0) & (r == M_CONST[True])


def judge(env, hrp, s, vals, accept, lower):
    """compare the real decoder with the reference on one string"""
    gv, gp = liquid_addr.decode(hrp, s)
    if gv is None or gp is None:
        env.check(gv is None and gp is None, 'no-half-result')
        env.check(env_not(accept), 'canonical-string-accepted')
        env.reach('rejected')
        return None
    env.check(accept, 'only-canonical-strings-accepted')
    want = program(vals[1:-12])
    env.check(gv == vals[0], 'version')
    env.check(len(gp) == len(want) and gp == want, 'program')
    back = liquid_addr.encode(hrp, gv, gp)
    env.check(back is not None and len(back) == len(lower) and back == lower, 're-encodes')
    env.reach('accepted')
    return gv, gp


def env_not(c):
    return c == False  # noqa: E712


def from_vals(vals, up):
    r = ''
    alphabet = CHARS.upper() if up else CHARS
    for v in vals:
        r = r + alphabet[v]
    return r


NOTIN = [[0 if chr(i) in CHARS else 1 for i in range(128)], [0 if chr(i) in CHARS.upper() else 1 for i in range(128)]]
UP = [1 if 65 <= i <= 90 else 0 for i in range(128)]
LOW = [1 if 97 <= i <= 122 else 0 for i in range(128)]


def run(env, job):
    op = job['op']
    if op == 'any':
        s = env.str('s', job['n'])
        for hrp in ('el', 'lq'):
            env.check(liquid_addr.decode(hrp, s) == (None, None), 'rejected')
        env.reach('rejected')
        return
    if op == 'uni':
        # a character outside the 7-bit range
        c = env.choose('code', [0x80, 0xb5, 0xdf, 0x130, 0x131, 0x212a, 0x017f, 0xff11, 0x10ffff])
        vals = [env.int('d', 0, 31) for k in range(20)]
        s = 'el1' + from_vals(vals, env.choose('upper', [False, True]))
        p = job['at']
        s = s[:p] + chr(c) + s[p + 1:]
        env.check(liquid_addr.decode('el', s) == (None, None), 'unicode-rejected')
        env.reach('rejected')
        return
    hrp = job['hrp']
    if op == 'subst':
        vals = ref_data(hrp, job['v'], env.bytes('program', job['n']))
        p = job['p']
        new = env.int('new', 0, 31)
        env.assume(new != vals[p])
        vals[p] = new
        s = hrp + '1' + from_vals(vals, False)
        env.check(liquid_addr.decode(hrp, s) == (None, None), 'substitution-detected')
        env.reach('rejected')
        return
    vals = [env.int('d', 0, 31) for k in range(job['n'])]
    up = env.choose('upper', [False, True])
    h = hrp.upper() if up else hrp
    s = h + '1' + from_vals(vals, up)
    if op == 'mixed':
        # the prefix in the other case, with at least one letter in the data
        env.assume(no_letter(s[len(h):], UP if up else LOW) == False)  # noqa: E712
        env.check(liquid_addr.decode(hrp, (hrp if up else hrp.upper()) + s[len(h):]) == (None, None), 'mixed-case-rejected')
        env.reach('rejected')
        return
    if op == 'data':
        judge(env, hrp, s, vals, ref_accept(hrp, vals), hrp + '1' + from_vals(vals, False))
        return
    if op == 'class':
        select_chain_params('elements')
        n = 5 * (job['n'] - 13) // 8
        ok = ref_accept(hrp, vals)
        for v, cls in WALLET[n]:
            for c in (cls, CBlech32ElementsConfidentialAddress):
                try:
                    a = c(s)
                except Blech32Error:
                    env.check(env_not(ok & (vals[0] == v)), 'address-accepted')
                    env.reach('rejected')
                else:
                    env.check(ok, 'only-canonical-strings-accepted')
                    env.check(vals[0] == v if c is cls else (vals[0] == 0) | ((vals[0] == 1) & (n == 65)), 'class-version')
                    want = program(vals[1:-12])
                    env.check(len(a) == len(want) and a.to_bytes() == want, 'program')
                    env.check(str(a) == hrp + '1' + from_vals(vals, False), 're-encodes')
                    env.reach('accepted')
        return
    # characters that do not belong at some positions
    codes = [ord(c) for c in s]
    alphabet = CHARS.upper() if up else CHARS
    for p in job['at']:
        c = env.int('c', 0, 127)
        k = p - len(h) - 1
        env.assume(c != codes[p] if k < 0 else NOTIN[up][c] == 1)
        codes[p] = c
    s = ''.join([chr(c) for c in codes])
    env.check(liquid_addr.decode(hrp, s) == (None, None), 'foreign-character-rejected')
    env.reach('rejected')


def no_letter(s, tab):
    n = 0
    for c in s:
        n = n | tab[ord(c)]
    return n == 0
