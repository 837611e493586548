"""Z01: without the proof library"""
import ctypes
import bitcointx.core.secp256k1
import elementstx
import elementstx.core.secp256k1 as sec
import elementstx.util
from harness import zkp
from harness.blindlib import scene, blind, ZERO
from harness.lib import CElementsScript, same_tx
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import (CConfidentialAsset, CConfidentialNonce, CConfidentialValue, CElementsTxOut, CElementsTxOutWitness,
                             CElementsTransaction, derive_blinding_key, unblind_confidential_pair)
from bitcointx import select_chain_params

SHAPES = [
    (['b'], ['B0'], None),
    (['p'], ['B0', 'B0'], None),
    (['b', 'p'], ['K', 'B1', 'C', 'B0', 'F'], None),
    (['b', 'u'], ['B0', 'F', 'B0'], 1),
    (['u', 'p'], ['B1', 'B1'], 0),
    (['b/nATat'], ['B0', 'B1', 'B2'], None),
    (['p', 'b/rAa'], ['B2', 'B1', 'K'], None),
]
BOUNDS = ('blinding of %d transaction shapes with up to 2 inputs, issuances, auxiliary generators and 5 outputs; unblinding of every committed '
          'value with explicit or committed asset, with and without nonce; every range proof of 0, 1 and 40 bytes; libraries with and without '
          'the proof modules, loaded from any path' % len(SHAPES))
ASSUMPTIONS = ['a library without the proof modules is the model (harness/zkp.py) without their functions; looking one up fails, as with ctypes']
PROOF = ('generator_', 'pedersen_', 'rangeproof_', 'surjectionproof_')


def jobs(tier):
    out = []
    for k, (i, o, a) in enumerate(SHAPES):
        out.append({'name': 'blind-%d' % k, 'op': 'blind', 'ins': i, 'outs': o, 'aux': a, 'reach': ['refused']})
    for asset in ('explicit', 'committed'):
        for nonce in (0, 33):
            for n in (0, 1, 40):
                out.append({'name': 'unblind-%s-%d-%d' % (asset, nonce, n), 'op': 'unblind', 'asset': asset, 'nonce': nonce, 'n': n,
                            'reach': ['refused']})
    for n in (0, 1, 40):
        for ok in (False, True):
            out.append({'name': 'info-%d-%d' % (n, ok), 'op': 'info', 'n': n, 'zkp': ok, 'reach': ['told', 'nothing'] if ok else ['refused']})
    for ok in (False, True):
        for path in ('default', 'custom'):
            out.append({'name': 'handle-%d-%s' % (ok, path), 'op': 'handle', 'zkp': ok, 'path': path, 'reach': ['loaded']})
    return out


def outcome(f):
    """result, or the exception"""
    try:
        return f(), None
    except zkp.Misuse:
        raise
    except Exception as e:
        if type(e).__module__.startswith('engine'):
            raise
        return None, e


def without(env, **kw):
    lib = zkp.install(env, pubs_valid=True, **kw)
    for k in list(vars(lib)):
        if k.startswith('secp256k1_') and k[10:].startswith(PROOF):
            delattr(lib, k)
    return lib


def run(env, job):
    select_chain_params('elements')
    op = job['op']
    if op == 'blind':
        without(env)
        s = scene(env, job['ins'], job['outs'], job['aux'], wit=True)
        before = s.tx.serialize()
        r, e = outcome(lambda: blind(env, s))
        env.check(e is not None or (r.ok is False and r.error != ''), 'refused')
        same_frame(env, s, before)
        env.reach('refused')
    elif op == 'unblind':
        without(env)
        key = env.bytes('key', 32)
        env.assume((key[0] != 0xff) & (key[31] != 0))
        value = bytes([8 | env.int('parity', 0, 1)]) + env.bytes('value', 32)
        asset = (b'\x01' if job['asset'] == 'explicit' else bytes([10 | env.int('parity', 0, 1)])) + env.bytes('asset', 32)
        nonce = bytes([2 | env.int('parity', 0, 1)]) + env.bytes('nonce', 32) if job['nonce'] else b''
        r, e = outcome(lambda: unblind_confidential_pair(
            blinding_key=CKey(key), confValue=CConfidentialValue(value), confAsset=CConfidentialAsset(asset),
            confNonce=CConfidentialNonce(nonce), committedScript=CElementsScript(env.bytes('script', 3)), rangeproof=env.bytes('proof', job['n'])))
        env.check(e is not None or (r.ok is False and r.error != ''), 'refused')
        env.reach('refused')
    elif op == 'info':
        info_job(env, job)
    else:
        handle_job(env, job)


def same_frame(env, s, before):
    """nothing was blinded; the only thing that may have been added are empty witness records"""
    x = s.tx
    n = len(s.t.vin)
    env.check(len(x.wit.vtxoutwit) <= len(s.t.vout) and all(w.is_null() for w in x.wit.vtxoutwit), 'no-proofs')
    del x.wit.vtxoutwit[:]
    after = x.serialize()
    y = CElementsTransaction.deserialize(before).to_mutable()
    del y.wit.vtxoutwit[:]
    want = y.serialize()
    env.check(len(after) == len(want) and after == want, 'unchanged')
    env.check(len(x.vin) == n, 'inputs')


def info_job(env, job):
    calls = []

    def info(proof):
        calls.append(proof)
        if not env.bool('readable'):
            return None
        r = {'exp': env.int('exp', -1, 18), 'mantissa': env.int('mantissa', 0, 64), 'min': env.int('min', 0, 2**64 - 1),
             'max': env.int('max', 0, 2**64 - 1)}
        calls.append(r)
        return r
    proof = env.bytes('proof', job['n'])
    w = CElementsTxOutWitness(env.bytes('surjection', 3), proof)
    if env.choose('mutable', [False, True]):
        w = w.to_mutable()
    if not job['zkp']:
        without(env)
        r, e = outcome(w.get_rangeproof_info)
        env.check(isinstance(e, RuntimeError), 'refused')
        env.reach('refused')
        return
    zkp.install(env, info=info)
    r = w.get_rangeproof_info()
    env.check(len(calls) >= 1 and len(calls[0]) == len(proof) and calls[0] == proof, 'asked-about-the-proof')
    if len(calls) == 1:
        env.check(r is None, 'nothing')
        env.reach('nothing')
        return
    c = calls[1]
    env.check(len(calls) == 2 and (r.exp == c['exp']) & (r.mantissa == c['mantissa']) & (r.value_min == c['min'])
              & (r.value_max == c['max']), 'told')
    env.reach('told')


def handle_job(env, job):
    lib = zkp.install(env) if job['zkp'] else without(env)
    paths = []
    ctypes.cdll.LoadLibrary = lambda path: (paths.append(path), lib)[1]
    want = 'model'
    if job['path'] == 'custom':
        want = __file__
        elementstx.set_custom_secp256k1_path(want)
        env.check(elementstx.get_custom_secp256k1_path() == want, 'path-told')
        try:
            elementstx.set_custom_secp256k1_path(want + '-does-not-exist')
            env.fail('missing-file-accepted')
        except ValueError:
            pass
    h = sec.get_secp256k1()
    env.check(paths == [want], 'path-used')
    env.check(h.lib is lib, 'library')
    env.check(h.cap.has_zkp is job['zkp'], 'capability')
    env.check((h.ctx.blind is not None) is job['zkp'], 'blinding-context')
    env.check(h.ctx.sign is not None and h.ctx.verify is not None, 'contexts')
    base = bitcointx.core.secp256k1.secp256k1_load_library('model')
    for k in dir(base.cap):
        if k.startswith('has_'):
            env.check(getattr(h.cap, k) is getattr(base.cap, k), 'base-capability')
    paths.clear()
    env.check(sec.get_secp256k1() is h and not paths, 'loaded-once')
    # the rest works either way
    key = env.bytes('key', 32)
    env.assume((key[0] != 0xff) & (key[31] != 0))
    r, e = outcome(lambda: derive_blinding_key(CKey(key), CElementsScript(env.bytes('script', 3))))
    # a hash that is no private key is the only obstacle
    env.check(len(r.secret_bytes) == 32 if e is None else isinstance(e, ValueError), 'derivation')
    env.reach('loaded')
