"""F01: failures of the proof library are never reported as success"""
from harness import zkp
from harness.blindlib import scene, blind, requested, ZERO, MAX, explicit
from harness.lib import CElementsScript
from bitcointx.core.key import CKey
from elementstx.core import (BlindingFailure, BlindingSuccess, CConfidentialAsset, CConfidentialNonce, CConfidentialValue, CElementsTxOut,
                             UnblindingSuccess, UnblindingFailure, unblind_confidential_pair)
from bitcointx import select_chain_params

SHAPES = [
    (['b'], ['B0'], None),
    (['p'], ['B0', 'B0'], None),
    (['b', 'p'], ['K', 'B1', 'C', 'B0', 'F'], None),
    (['b', 'u'], ['B0', 'F', 'B0'], 1),
    (['b/nATat'], ['B0', 'B1', 'B2'], None),
    (['p/nAa'], ['B1'], None),
    (['p', 'b/rAa'], ['B2', 'B1', 'K'], None),
    (['p/nTt', 'b'], ['B1r', 'B2'], None),
]
MORE = [
    (['b', 'p', 'b'], ['B2', 'B0', 'B1'], None),
    (['p/nATat', 'p/nATat'], ['B1', 'B2', 'B4', 'B5'], None),
    (['u', 'b/nATat', 'p'], ['B1', 'B2', 'F', 'B3'], 2),
    (['s', 's'], ['B0', 'B1', 'B0'], None),
]
BOUNDS = ('every subset of failing calls of the 15 fallible functions of the proof library: while blinding %d (thorough: %d) transaction '
          'shapes with up to 3 inputs, issuances, auxiliary generators and 5 outputs, in strict and non-strict mode, while unblinding any '
          'committed output with 33-byte asset field (explicit or committed) and any answer of the rewinding; amounts, assets, factors, '
          'keys, scripts and random values symbolic' % (len(SHAPES), len(SHAPES + MORE)))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py); a failing call returns 0 and leaves its output buffers '
               'as they were', 'failures of the base library (public keys, ECDH), which bitcointx handles, are not scheduled']


def jobs(tier):
    out = []
    for k, (i, o, a) in enumerate(SHAPES + (MORE if tier == 'thorough' else [])):
        for strict in (True, False):
            out.append({'name': 'blind-%d-%d' % (k, strict), 'op': 'blind', 'ins': i, 'outs': o, 'aux': a, 'strict': strict,
                        'reach': ['clean', 'raised']})
    for asset in ('explicit', 'committed'):
        for nonce in (0, 33):
            out.append({'name': 'unblind-%s-%d' % (asset, nonce), 'op': 'unblind', 'asset': asset, 'nonce': nonce,
                        'reach': ['opened', 'refused', 'faulty']})
    return out


def attempt(env, f):
    """(result, None) or (None, exception)"""
    try:
        return f(), None
    except zkp.Misuse:
        raise
    except Exception as e:
        if type(e).__module__.startswith('engine'):
            raise
        return None, e


def run(env, job):
    select_chain_params('elements')
    faults = []

    def fault(name):
        bad = env.choose('fault', [False, True])
        if bad:
            faults.append(name)
        return bad
    if job['op'] == 'unblind':
        return unblinding(env, job, faults, fault)
    lib = zkp.install(env, fault=fault)
    s = scene(env, job['ins'], job['outs'], job['aux'])
    r, e = attempt(env, lambda: blind(env, s, is_blind_success_strict=job['strict']))
    missing = [x for x in faults if x == 'surjectionproof_allocate_initialized']
    # the library's objects are given back whatever happened
    env.check(all(p['destroyed'] for p in lib.surj), 'proofs-released')
    # an output has either both of its proofs or none
    for k, w in enumerate(s.tx.wit.vtxoutwit):
        if w.is_null():
            continue
        env.check(any(env.certain(len(w.rangeproof) == len(p['proof']) and w.rangeproof == p['proof']) for p in lib.proofs), 'range-proof-made')
        env.check(any('proof' in p and env.certain(len(w.surjectionproof) == len(p['proof']) and w.surjectionproof == p['proof'])
                      for p in lib.surj), 'surjection-proof-made')
        env.check(s.outs[k].kind == 'B', 'proof-where-asked')
    if e is not None:
        env.check(len(faults) != 0, 'raised-without-fault:' + type(e).__name__)
        env.check(isinstance(e, RuntimeError), 'exception-type:' + type(e).__name__)
        env.reach('raised')
        return
    env.check(isinstance(r, (BlindingSuccess, BlindingFailure)), 'result-type')
    env.check(r.ok is (r.error == '') and r.ok is isinstance(r, BlindingSuccess), 'verdict')
    proved = [k for k, w in enumerate(s.tx.wit.vtxoutwit) if not w.is_null()]
    if not faults:
        env.check(r.ok, 'succeeds-without-fault')
        env.check(r.num_successfully_blinded == requested(s), 'count-without-fault')
        env.reach('clean')
    elif job['strict']:
        env.check(not r.ok, 'success-despite-fault')
    elif r.ok:
        # a surjection proof that cannot be started leaves its output out, and only that
        env.check(len(missing) == len(faults), 'success-despite-fault')
    if r.ok:
        env.check(r.num_successfully_blinded == requested(s) - len(missing), 'count')
        env.check(len(proved) == sum(1 for o in s.outs if o.kind == 'B') - len(missing), 'blinded-outputs')
        for k, i in enumerate(s.ins):
            for letter in 'at':
                if letter in i.iss[1:]:
                    w = s.tx.wit.vtxinwit[k]
                    env.check(len(w.issuanceAmountRangeproof if letter == 'a' else w.inflationKeysRangeproof) != 0, 'issuance-proof')


def unblinding(env, job, faults, fault):
    def rewind(**kw):
        r = {'blind': env.bytes('rewound-factor', 32), 'value': env.int('rewound-amount', 0, 2**64 - 1),
             'msg': env.bytes('rewound-message', 64), 'outlen': env.int('rewound-length', 0, 4096),
             'min': env.int('rewound-min', 0, 2**64 - 1), 'max': env.int('rewound-max', 0, 2**64 - 1)}
        g = zkp.gen64(r['msg'][:32], r['msg'][32:])
        env.assume(g[:32] != ZERO)
        return r
    lib = zkp.install(env, rewind=rewind, fault=fault, pubs_valid=True)
    key = env.bytes('key', 32)
    env.assume((key[0] != 0xff) & (key[31] != 0))
    value = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('value', 32)
    asset = b'\x01' if job['asset'] == 'explicit' else bytes([10 | env.int('parity', 0, 1)])
    asset = asset + env.bytes('asset', 32)
    nonce = bytes([2 | env.int('parity', 0, 1)]) + env.bytes('nonce', 32) if job['nonce'] else b''
    script, proof = env.bytes('script', 3), env.bytes('proof', 5)
    r, e = attempt(env, lambda: unblind_confidential_pair(
        blinding_key=CKey(key), confValue=CConfidentialValue(value), confAsset=CConfidentialAsset(asset),
        confNonce=CConfidentialNonce(nonce), committedScript=CElementsScript(script), rangeproof=proof))
    if e is not None:
        env.check(isinstance(e, RuntimeError) and len(faults) != 0, 'exception:' + type(e).__name__)
        env.reach('faulty')
        return
    env.check(isinstance(r, (UnblindingSuccess, UnblindingFailure)), 'result-type')
    env.check(r.ok is (r.error == '') and r.ok is isinstance(r, UnblindingSuccess), 'verdict')
    if faults:
        env.check(not r.ok, 'success-despite-fault')
        env.reach('faulty')
    else:
        env.reach('opened' if r.ok else 'refused')
