"""B06: issuances are blinded with the right asset, key, amount and factor"""
from harness import zkp
from harness.blindlib import scene, blind, requested, shape_jobs, SHAPES, ZERO, scalar
from harness.lib import CElementsScript
from bitcointx.core.key import CKey
from elementstx.core import (CConfidentialAsset, CConfidentialNonce, CConfidentialValue, CAsset)
from elementstx.core import unblind_confidential_pair
from bitcointx import select_chain_params

SHAPES_I = [
    (['b/nAa'], ['B0'], None),
    (['p/nAa'], ['B1', 'F'], None),
    (['p/nATa'], ['B1', 'K'], None),
    (['p/nATt'], ['B2', 'B1'], None),
    (['p/nATat'], ['B0', 'B1', 'B2'], None),
    (['b/nTt'], ['B1', 'B0'], None),
    (['v/nTt'], ['B0'], None),
    (['a/rAa'], ['B1'], None),
    (['p/rA', 'b/nATat'], ['B1', 'B2'], None),
    (['p/rAa', 'b/nATt'], ['B1', 'B2'], None),
    (['b/nATat', 'b/nATat'], ['B0', 'B1', 'B2', 'B4', 'B5'], None),
    (['p', 'p/nATat'], ['B3', 'C', 'F'], None),
    (['p/nA', 'b/nATat', 'p/nT'], ['B3', 'K'], None),
    (['p/rAa', 'p/rAa'], ['B1', 'B3'], None),
    (['u/nATat', 'p'], ['B1', 'B2'], 1),
    (['b/nAT', 'p/nAa'], ['B1', 'B0'], None),
]
BOUNDS = ('transactions of %d shapes with up to 3 inputs, each with a new issuance, a reissuance or none, and every choice of which '
          'parts are blinded (thorough: also every pair of input kinds); amounts in the money range, prevouts, entropies, keys, assets '
          'and random values symbolic; with and without witness records in place' % len(SHAPES_I))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py)',
               'scalars are below ff00.. and do not end in a zero byte; keys, random values and blinding factors differ pairwise in '
               'their second byte']


def jobs(tier):
    if tier == 'thorough':
        return [j for j in shape_jobs(tier, ['blinded'], SHAPES_I)
                if any('a' in i.partition('/')[2][1:] or 't' in i.partition('/')[2][1:] for i in j['ins'])]
    return [{'name': 'shape-%d' % k, 'ins': i, 'outs': o, 'aux': a, 'reach': ['blinded']} for k, (i, o, a) in enumerate(SHAPES_I)]


def run(env, job):
    select_chain_params('elements')
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], job['aux'], tags=[], wit=True)
    if env.choose('no witness records', [False, True]):
        s.tx.wit.vtxinwit.clear()
        s.tx.wit.vtxoutwit.clear()
    r = blind(env, s)
    if r.error != '':
        env.check(False, 'blinding-refused:' + r.error)
    env.check(r.num_successfully_blinded == requested(s), 'all-blinded')
    c = lib.sums[0]
    # the value factors of the issuances follow those of the blinded inputs
    pos = sum(1 for i in s.ins if i.kind != 'p')
    for k, i in enumerate(s.ins):
        x, old = s.tx.vin[k].assetIssuance, s.t.vin[k].iss
        env.check(x.assetBlindingNonce.data == old.blinding_nonce, 'nonce-kept')
        env.check(x.assetEntropy.data == old.entropy, 'entropy-kept')
        done = []
        for letter, f, data, amount, asset, key in (('a', x.nAmount, old.amount, getattr(i, 'iamount', None),
                                                     getattr(i, 'iasset', None), i.akey),
                                                    ('t', x.nInflationKeys, old.keys, getattr(i, 'tamount', None),
                                                     getattr(i, 'token', None), i.tkey)):
            if letter not in i.iss[1:]:
                env.check(f.commitment == data, 'other-part-kept')
                continue
            blinder = c['blinds'][pos]
            pos += 1
            gen = zkp.gen64(asset, ZERO)
            env.check(zkp.is_commit(f.commitment, zkp.commit64(blinder, amount, gen)), 'commitment')
            env.check(f.is_commitment(), 'is-a-commitment')
            w = s.tx.wit.vtxinwit[k]
            proof = w.issuanceAmountRangeproof if letter == 'a' else w.inflationKeysRangeproof
            done.append(letter)
            for conf in (CConfidentialAsset(CAsset(asset)), CConfidentialAsset(zkp.ser_gen(gen))):
                u = unblind_confidential_pair(blinding_key=CKey(key), confValue=f, confAsset=conf, confNonce=CConfidentialNonce(),
                                              committedScript=CElementsScript(env.bytes('script', 2)), rangeproof=proof)
                env.check(u.error == '', 'owner-rewinds')
                env.check((u.amount == amount) & (u.asset.data == asset) & (u.blinding_factor.data == blinder)
                          & (u.asset_blinding_factor.data == ZERO), 'rewound-values')
            u = unblind_confidential_pair(blinding_key=CKey(scalar(env, 'other-key', s.tags_)), confValue=f,
                                          confAsset=CConfidentialAsset(CAsset(asset)), confNonce=CConfidentialNonce(),
                                          committedScript=CElementsScript(), rangeproof=proof)
            env.check(u.error != '', 'others-do-not-rewind')
        if k < len(s.tx.wit.vtxinwit):
            w = s.tx.wit.vtxinwit[k]
            if 'a' not in done:
                env.check(len(w.issuanceAmountRangeproof) == 0, 'no-amount-proof')
            if 't' not in done:
                env.check(len(w.inflationKeysRangeproof) == 0, 'no-keys-proof')
    env.reach('blinded')
