"""B04: surjection proofs are built against the generators a verifier uses"""
from harness import zkp
from harness.blindlib import scene, blind, requested, shape_jobs, SHAPES, ZERO
from elementstx.core.secp256k1 import build_aligned_data_array
from bitcointx import select_chain_params

MORE = [
    (['b', 'b='], ['B0', 'B1', 'F'], None),
    (['p', 'v=', 'a'], ['B0', 'B1', 'B2'], None),
    (['b', 'p', 'b=', 'v='], ['B0', 'B1'], None),
    (['b', 'u', 'p'], ['B2', 'B0', 'F'], 2),
    (['u', 'b/nATat', 'u'], ['B1', 'B2', 'B3'], 1),
    (['b', 'p/nTt'], ['B2', 'B0'], None),
    (['b', 'p/nT'], ['B2', 'B1', 'B0'], None),
    (['b', 'p/nAT'], ['B2', 'B3', 'B0', 'B1'], None),
    (['p/nA', 'b/rA'], ['B1', 'B3', 'B2', 'B0'], None),
    (['p', 'b/nA', 'p'], ['B3', 'B2', 'B1', 'B0'], 0),
    (['b^0/rA'], ['B0', 'B1'], None),
    (['b~2', 'p^2', 'b/rA'], ['B1', 'B0', 'B3', 'B2'], 1),
    (['p', 'b/nAT', 'p/rA', 'v'], ['B5', 'B6', 'B3', 'B2', 'B0', 'B1', 'B4'], 3),
]
BOUNDS = ('transactions of %d shapes with up to 6 inputs, 11 generators and 7 outputs (thorough: also every pair of input kinds), with '
          'issuances, reissuances (also spending the asset or token they issue), unknown inputs, equal assets and 0..3 further auxiliary generators; assets, factors, generators, '
          'entropies, keys and random values symbolic; packing of 0..6 items of 32 and 64 bytes' % (len(SHAPES) + len(MORE)))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py); the surjection primitive picks any input with the '
               'asset of the output',
               'scalars are below ff00.. and do not end in a zero byte; assets of different inputs differ unless made equal']


def jobs(tier):
    out = shape_jobs(tier, ['proved'], MORE)
    for n in range(7):
        out.append({'name': 'packing-%d' % n, 'op': 'packing', 'n': n, 'reach': ['packed']})
    return out


def run(env, job):
    select_chain_params('elements')
    if job.get('op') == 'packing':
        packing(env, job['n'])
        return
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], job['aux'])
    r = blind(env, s)
    if r.error != '':
        env.check(False, 'blinding-refused:' + r.error)
    env.check(r.num_successfully_blinded == requested(s), 'all-blinded')
    mine = [k for k, o in enumerate(s.outs) if o.kind == 'B']
    env.check(len(lib.surj) == len(mine), 'one-proof-per-output')
    n = len(s.tags)
    # what a verifier reconstructs from the transaction: an issuance contributes the generators of what it still declares
    for k, i in enumerate(s.ins):
        y = s.tx.vin[k].assetIssuance
        env.check(y.nAmount.is_null() == ('A' not in i.iss), 'issued-asset-stays-declared')
        env.check(y.nInflationKeys.is_null() == ('T' not in i.iss), 'issued-token-stays-declared')
    for p, k in zip(lib.surj, mine):
        o, x = s.outs[k], s.tx.vout[k]
        ab = r.asset_blinding_factors[k].data
        env.check(len(p['tags']) == n and len(p['gens']) == n, 'number-of-generators')
        for j in range(n):
            env.check(p['tags'][j] == s.tags[j], 'asset-tag')
            env.check(zkp.same(p['gens'][j], s.gens[j]), 'generator')
        env.check(p['tag'] == o.asset, 'asset-of-the-output')
        env.check(zkp.same(p['out'], zkp.gen64(o.asset, ab)), 'generator-of-the-output')
        env.check(zkp.is_gen(x.nAsset.commitment, p['out']), 'asset-commitment')
        env.check(p['in_blind'] == s.tblind[p['index']], 'factor-of-the-chosen-input')
        env.check(p['out_blind'] == ab, 'factor-of-the-output')
        env.check(p['valid'], 'proof-verifies')
        env.check(s.tx.wit.vtxoutwit[k].surjectionproof == p['proof'], 'proof-is-stored')
        env.check(p['destroyed'], 'proof-object-freed')
    env.reach('proved')


def packing(env, n):
    size = env.choose('size', [32, 64])
    d = [env.bytes('item', size) for dummy in range(n)]
    r = build_aligned_data_array(d, size)
    env.check(len(r) == n * size, 'packed-size')
    for k in range(n):
        env.check(r[k * size:(k + 1) * size] == d[k], 'packed-item')
    bad = env.choose('bad', [size - 1, size + 1, 0])
    if n:
        k = env.choose('which', list(range(n)))
        e = d[:k] + [env.bytes('bad', bad)] + d[k + 1:]
        try:
            build_aligned_data_array(e, size)
        except (AssertionError, ValueError):
            pass
        else:
            env.fail('item-of-wrong-size-accepted')
    env.reach('packed')
