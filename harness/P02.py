"""P02: unspendability and the range-proof minimum"""
from harness import zkp
from harness.blindlib import scene, blind
from harness.lib import CElementsScript
from bitcointx import select_chain_params

CHAINS = ['elements', 'elements/elementsregtest', 'elements/liquidv1']
LENGTHS = list(range(1, 12)) + [22, 23, 25, 34, 35, 75, 76, 83, 252, 253, 520, 9999, 10000, 10001, 10002]
BOUNDS = ('scripts of lengths 0..80, 252..256, 520, 9999..10002 with every content for the test itself; blinding of outputs with '
          'scripts of 1..11, 22..35, 75..83, 252, 253, 520, 9999..10002 bytes, every amount in the money range, every exponent 0..18 '
          'and precision 0..64 given or left to the default; all three Elements chain names')
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py)',
               'a spendable output has a positive amount (the library cannot prove a minimum of 1 for 0)']


def jobs(tier):
    out = []
    for n in list(range(0, 81)) + [252, 253, 254, 255, 256, 520, 9999, 10000, 10001, 10002]:
        out.append({'name': 'test-%d' % n, 'op': 'test', 'n': n, 'reach': ['test']})
    for n in (list(range(1, 90)) + LENGTHS[13:] if tier == 'thorough' else LENGTHS):
        out.append({'name': 'proof-%d' % n, 'op': 'proof', 'n': n, 'ins': ['b'], 'outs': ['B0z'], 'reach': ['proof']})
    out.append({'name': 'two', 'op': 'proof', 'n': 4, 'ins': ['b', 'p'], 'outs': ['B1z', 'K', 'B0z'], 'reach': ['proof']})
    out.append({'name': 'three', 'op': 'proof', 'n': 2, 'ins': ['p'], 'outs': ['B0z', 'B0z', 'B0z', 'F'], 'reach': ['proof']})
    out.append({'name': 'issuance', 'op': 'proof', 'n': 3, 'ins': ['b/nATat'], 'outs': ['B0z', 'B1'], 'reach': ['proof']})
    return out


def ref(script):
    if len(script) == 0 or len(script) > 10000:
        return True
    return script[0] == 0x6a


def run(env, job):
    chain = env.choose('chain', CHAINS)
    select_chain_params(chain)
    try:
        body(env, job)
    finally:
        select_chain_params('elements')


def body(env, job):
    n = job['n']
    if job['op'] == 'test':
        d = env.bytes('script', n)
        env.check(CElementsScript(d).is_unspendable() == ref(d), 'unspendable')
        env.reach('test')
        return
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], None, script=n)
    kw = {}
    exp, bits = 0, 52
    if env.choose('custom exponent', [False, True]):
        exp = kw['custom_ct_exponent'] = env.int('exponent', 0, 18)
    if env.choose('custom bits', [False, True]):
        bits = kw['custom_ct_bits'] = env.int('bits', 0, 64)
    r = blind(env, s, **kw)
    if r.error != '':
        env.check(False, 'blinding-refused:' + r.error)
    want = []
    for k, i in enumerate(s.ins):
        w = s.tx.wit.vtxinwit[k] if k < len(s.tx.wit.vtxinwit) else None
        if 'a' in i.iss[1:]:
            want.append((b'', i.iamount, w.issuanceAmountRangeproof))
        if 't' in i.iss[1:]:
            want.append((b'', i.tamount, w.inflationKeysRangeproof))
    for k, o in enumerate(s.outs):
        if o.kind == 'B':
            want.append((s.t.vout[k].script, o.amount, s.tx.wit.vtxoutwit[k].rangeproof))
    env.check(len(lib.proofs) == len(want), 'number-of-proofs')
    for p, (script, amount, proof) in zip(lib.proofs, want):
        un = ref(script)
        env.check((p['min'] == 0) == un, 'minimum-zero-exactly-for-unspendable')
        env.check((p['min'] == 1) == (un == False), 'minimum-one-otherwise')  # noqa
        env.check(p['extra'] == script, 'commits-to-the-script')
        env.check(p['value'] == amount, 'value')
        env.check(p['exp'] == exp, 'exponent')
        env.check(p['bits'] == bits, 'precision')
        env.check(p['proof'] == proof, 'stored')
    env.reach('proof')
