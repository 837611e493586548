"""B05: unblinding accepts nothing that does not match the commitments"""
import hashlib
from harness import zkp
from harness.blindlib import ZERO, MAX
from harness.lib import CElementsScript
from bitcointx.core.key import CKey
from elementstx.core import (CConfidentialAsset, CConfidentialNonce, CConfidentialValue, CAsset, CElementsTxOut, CElementsMutableTxOut,
                             UnblindingSuccess, UnblindingFailure, Uint256, unblind_confidential_pair)
from bitcointx import select_chain_params

NONCES = {'none': 0, 'bytes': 33}
VALUES = {'null': 0, 'short': 9, 'bytes': 33}
ASSETS = {'null': 0, 'bytes': 33}
BOUNDS = ('every value field (empty, 9 or 33 bytes of any content), asset field (empty or 33 bytes of any content) and nonce field (empty or '
          '33 bytes of any content), scripts of 0, 1, 3 and 25 (thorough: 0..40) bytes, range proofs of 0, 1, 5 and 40 bytes given as bytes or bytearray; '
          'asset commitments made from the rewound message with either parity; every library call fails or succeeds, and a rewind returns any 64-bit amount, any factor, any message of any length up to 4096')
ASSUMPTIONS = ['the library is nondeterministic (harness/zkp.py with a rewind that returns anything); parsing a commitment gives its x coordinate '
               'and parity, generators are injective in the asset and the factor',
               'a generator is never the all-zero point encoding']


def jobs(tier):
    th = tier == 'thorough'
    out = []

    def add(via, nonce, value, asset, script, proof, reach):
        out.append({'name': '%s-%s-%s-%s-%d-%d' % (via, nonce, value, asset, script, proof), 'via': via, 'nonce': nonce, 'value': value,
                    'asset': asset, 'script': script, 'proof': proof, 'reach': reach})
    scripts = range(41) if th else (0, 1, 3, 25)
    for via in ('function', 'txout', 'mutable'):
        for nonce in NONCES:
            for k in scripts:
                add(via, nonce, 'bytes', 'bytes', k, 40, ['opened', 'refused'])
            for value in VALUES:
                for asset in ASSETS:
                    if (value, asset) == ('bytes', 'bytes'):
                        continue
                    add(via, nonce, value, asset, 3, 5, ['refused'])
            for proof in (1, 5):
                add(via, nonce, 'bytes', 'bytes', 2, proof, ['opened', 'refused'])
            for value in VALUES:
                add(via, nonce, value, 'bytes', 2, 0, ['refused'])
            # a commitment made from what the rewinding tells, with either parity
            add(via, nonce, 'bytes', 'made', 3, 5, ['opened', 'refused'])
            add(via, nonce, 'bytes', 'made-explicit', 3, 5, ['opened', 'refused'])
    return out


def run(env, job):
    select_chain_params('elements')
    calls = []

    def rewind(**kw):
        kw['ok'] = env.bool('rewinds')
        calls.append(kw)
        if not kw['ok']:
            return None
        kw['blind'] = env.bytes('rewound-factor', 32)
        kw['value'] = env.int('rewound-amount', 0, 2**64 - 1)
        kw['msg'] = message if message is not None else env.bytes('rewound-message', 64)
        kw['outlen'] = env.int('rewound-length', 0, 4096)
        kw['g'] = zkp.gen64(kw['msg'][:32], kw['msg'][32:])
        env.assume(kw['g'][:32] != ZERO)
        if len(asset) and message is None:
            # equal arguments give equal generators, parity included
            env.assume((asset[1:] != kw['msg'][:32]) | (kw['msg'][32:] != ZERO) | (kw['g'][32] == zkp.gen64(asset[1:], ZERO)[32]))
        return {'blind': kw['blind'], 'value': kw['value'], 'msg': kw['msg'], 'outlen': kw['outlen'],
                'min': env.int('rewound-min', 0, 2**64 - 1), 'max': env.int('rewound-max', 0, 2**64 - 1)}

    lib = zkp.install(env, rewind=rewind, parse_fails=True, generate_fails=True)
    key = env.bytes('key', 32)
    env.assume((key[0] != 0xff) & (key[31] != 0))
    value = env.bytes('value', VALUES[job['value']])
    message = None
    if job['asset'].startswith('made'):
        message = env.bytes('rewound-message', 64)
        if job['asset'] == 'made-explicit':
            message = message[:32] + ZERO
            asset = b'\x01' + message[:32]
        else:
            asset = bytes([10 | env.int('asset-parity', 0, 1)]) + zkp.gen64(message[:32], message[32:])[:32]
    else:
        asset = env.bytes('asset', ASSETS[job['asset']])
    nonce = env.bytes('nonce', NONCES[job['nonce']])
    script = env.bytes('script', job['script'])
    proof = env.bytes('proof', job['proof'])
    given = bytearray(proof) if env.choose('proof type', ['bytes', 'bytearray']) == 'bytearray' else proof
    k = CKey(key)
    try:
        if job['via'] == 'function':
            r = unblind_confidential_pair(blinding_key=k, confValue=CConfidentialValue(value), confAsset=CConfidentialAsset(asset),
                                          confNonce=CConfidentialNonce(nonce), committedScript=CElementsScript(script), rangeproof=given)
        else:
            cls = CElementsTxOut if job['via'] == 'txout' else CElementsMutableTxOut
            o = cls(nValue=CConfidentialValue(value), nAsset=CConfidentialAsset(asset), nNonce=CConfidentialNonce(nonce),
                    scriptPubKey=CElementsScript(script))
            r = o.unblind_confidential_pair(k, given)
    except zkp.Misuse:
        raise
    except Exception as e:
        if type(e).__module__.startswith('engine'):
            raise
        env.fail('exception:' + type(e).__name__)
        return
    env.check(isinstance(r, (UnblindingSuccess, UnblindingFailure)), 'result-type')
    env.check(len(calls) <= 1, 'rewound-at-most-once')
    if r.error != '':
        env.check(isinstance(r, UnblindingFailure) and isinstance(r.error, str) and r.ok is False, 'failure')
        # nothing that is right in every respect is refused
        if calls and calls[0]['ok'] and not any(not ok for dummy, ok in lib.outcomes):
            c = calls[0]
            if len(asset):
                want = zkp.parse_gen(asset) if asset[0] != 1 else zkp.gen64(asset[1:], ZERO)
                bad = (asset[0] != 1) & (asset[0] != 10) & (asset[0] != 11)
                env.check(bad | (c['value'] > MAX) | (c['outlen'] != 64) | (want != c['g']) | (c['msg'][32] == 0xff),
                          'refused-for-a-reason')
        elif not calls and job['proof'] and len(value) == 33 and len(asset) == 33 and not any(not ok for dummy, ok in lib.outcomes):
            good = (value[0] == 8) | (value[0] == 9)
            if len(nonce):
                good = good & ((nonce[0] == 2) | (nonce[0] == 3))
            env.check(good == False, 'not-tried-for-a-reason')  # noqa
        env.reach('refused')
        return
    env.check(isinstance(r, UnblindingSuccess) and r.ok is True, 'success')
    env.check(len(calls) == 1 and calls[0]['ok'], 'rewound')
    c = calls[0]
    # everything that was presented took part
    env.check(len(proof) != 0 and len(c['proof']) == len(proof) and c['proof'] == proof, 'proof-used')
    env.check(len(value) == 33 and (value[0] == 8) | (value[0] == 9), 'value-is-a-commitment')
    env.check((c['commit'][:32] == value[1:]) & (c['commit'][32] == (value[0] & 1)), 'commitment-used')
    if len(nonce):
        env.check((nonce[0] == 2) | (nonce[0] == 3), 'nonce-is-a-key')
        env.check(c['nonce'] == hashlib.sha256(lib.shared(nonce[1:] + bytes([nonce[0] & 1]) + bytes(31), key)).digest(), 'shared-nonce')
        env.check(len(c['extra']) == len(script) and c['extra'] == script, 'script-used')
    else:
        env.check(c['nonce'] == key, 'key-as-nonce')
        env.check(len(c['extra']) == 0, 'no-script')
    # and the answer is judged
    env.check(len(asset) == 33, 'asset-present')
    kinds = (asset[0] == 10) | (asset[0] == 11) | (asset[0] == 1)
    env.check(kinds, 'asset-kind')
    env.check(c['value'] <= MAX, 'money-range')
    env.check(c['outlen'] == 64, 'message-size')
    if asset[0] == 1:
        env.check(zkp.same(zkp.gen64(asset[1:], ZERO), c['g']), 'explicit-asset-matches')
        env.check(c['gen'] == zkp.gen64(asset[1:], ZERO), 'generator-used')
        env.check(r.asset.data == asset[1:], 'explicit-asset-returned')
    else:
        env.check((c['g'][:32] == asset[1:]) & (c['g'][32] == (asset[0] & 1)), 'generator-matches')
        env.check((c['gen'][:32] == asset[1:]) & (c['gen'][32] == (asset[0] & 1)), 'generator-used')
    env.check(isinstance(r.asset, CAsset) and isinstance(r.blinding_factor, Uint256), 'types')
    env.check((r.amount == c['value']) & (r.asset.data == c['msg'][:32]) & (r.blinding_factor.data == c['blind'])
              & (r.asset_blinding_factor.data == c['msg'][32:]), 'rewound-values-returned')
    env.check(all(ok for dummy, ok in lib.outcomes), 'no-failed-call')
    env.reach('opened')
