"""B07: deterministic blinding keys are the keyed hash of the script"""
import hashlib
import hmac
from bitcointx.core.key import CKey, CPubKey
from bitcointx.core.script import CBitcoinScript
from bitcointx import select_chain_params, ChainParams
from elementstx.core import derive_blinding_key
from elementstx.core.script import CElementsScript
from harness import zkp

BOUNDS = ('every valid 32-byte master secret and every script of 0..40, 63..66, 127..129, 252..254, 520 (thorough: 0..140 and up to 10001) '
          'bytes; pairs of scripts of equal and of different length up to 40 bytes; pairs of master keys')
ASSUMPTIONS = ['HMAC-SHA256 and public key generation are injective abstract functions (collision freedom)',
               'libsecp256k1 is replaced by a functional model (harness/zkp.py)']


def jobs(tier):
    th = tier == 'thorough'
    out = []
    lens = list(range(0, 41)) + [63, 64, 65, 66, 127, 128, 129, 252, 253, 254, 520]
    if th:
        lens = list(range(0, 141)) + [252, 253, 254, 519, 520, 521, 1000, 10000, 10001]
    for n in lens:
        out.append({'name': 'key-%d' % n, 'op': 'key', 'n': n, 'reach': ['key']})
    pairs = [(0, 1), (1, 1), (1, 2), (22, 22), (23, 23), (22, 23), (25, 25), (34, 34), (33, 34), (40, 40)]
    if th:
        pairs = [(a, b) for a in range(12) for b in range(a, 12)] + pairs
    for a, b in pairs:
        out.append({'name': 'scripts-%d-%d' % (a, b), 'op': 'scripts', 'n': a, 'm': b, 'reach': ['pair']})
    for n in (0, 1, 23, 34):
        out.append({'name': 'masters-%d' % n, 'op': 'masters', 'n': n, 'reach': ['pair']})
    for n in (0, 1, 25):
        out.append({'name': 'refused-%d' % n, 'op': 'refused', 'n': n, 'reach': ['refused']})
    return out


def secret(env, name):
    s = env.bytes(name, 32)
    env.assume((s[0] != 0xff) & (s[31] != 0))
    return s


def derive(env, master, script):
    """the derived key, None when the hash is no valid private key"""
    try:
        return derive_blinding_key(master, script)
    except ValueError:
        return None


def run(env, job):
    select_chain_params('elements')
    zkp.install(env)
    op = job['op']
    s = secret(env, 'master')
    master = CKey(s)
    raw = env.bytes('script', job['n'])
    if op == 'refused':
        with ChainParams('bitcoin'):
            foreign = CBitcoinScript(raw)
        try:
            derive_blinding_key(master, foreign)
        except TypeError:
            env.reach('refused')
        else:
            env.fail('script-of-another-chain-refused')
        for bad in (None, 5, 'abc', [raw]):
            try:
                derive_blinding_key(master, bad)
            except TypeError:
                pass
            else:
                env.fail('wrong-type-refused')
        try:
            derive_blinding_key(s, raw)
        except TypeError:
            pass
        else:
            env.fail('wrong-key-type-refused')
        return
    k = derive(env, master, CElementsScript(raw))
    want = hmac.new(s, raw, hashlib.sha256).digest()
    if k is None:
        env.check((want[0] == 0xff) | (want[31] == 0), 'refused-only-when-no-valid-key')
        env.reach('no-key')
        return
    env.check(k.secret_bytes == want, 'keyed-hash')
    if op == 'key':
        env.check(k.secret_bytes == want, 'keyed-hash')
        env.check(isinstance(k, CKey), 'key-type')
        k2 = derive(env, master, bytes(raw))
        k3 = derive(env, master, bytearray(raw))
        k4 = CElementsScript(raw).derive_blinding_key(master)
        for x in (k2, k3, k4):
            env.check(x is not None and x.secret_bytes == want, 'same-key-for-all-forms')
            env.check(x.pub == k.pub, 'same-public-key')
        env.reach('key')
        return
    if op == 'scripts':
        raw2 = env.bytes('script2', job['m'])
        if job['n'] == job['m']:
            env.assume(raw != raw2)
        k2 = derive(env, master, CElementsScript(raw2))
    else:
        t = secret(env, 'master2')
        env.assume(s != t)
        k2 = derive(env, CKey(t), CElementsScript(raw))
    if k2 is not None:
        env.check(k.secret_bytes != k2.secret_bytes, 'different-keys')
        env.reach('pair')
