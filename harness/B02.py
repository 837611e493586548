"""B02: the holder of the blinding key recovers what was blinded"""
from harness import zkp
from harness.blindlib import scene, blind, requested, scalar, shape_jobs, SHAPES, ZERO, Uint256
from harness.lib import CElementsScript
from bitcointx.core.key import CKey
from elementstx.core import CAsset, BlindingInputDescriptor
from bitcointx import select_chain_params

MORE = [
    (['b'], ['B0o', 'B0r'], None),
    (['b'], ['B0o', 'B0', 'B0'], None),
    (['p'], ['B0r', 'B0', 'B0o'], None),
]
BOUNDS = ('transactions of %d shapes with up to 6 inputs and 6 outputs (thorough: also every pair of input kinds), every mix of '
          'blinded, half blinded, unblinded and unknown inputs, issuances and reissuances; amounts in the money range, assets, '
          'factors, prevouts, scripts of 3 bytes, keys and random values symbolic; wrong keys, wrong scripts of length 0..5 and '
          'the proofs of the other outputs' % (len(SHAPES) + len(MORE)))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py): rewinding a range proof succeeds exactly with the '
               'nonce, commitment, script and generator it was made with, and the Diffie-Hellman value is the same from both sides',
               'scalars are below ff00.. and do not end in a zero byte; inputs carry pairwise different assets; keys, random values and blinding factors '
               'differ pairwise in their second byte',
               'outputs that are blinded to spendable scripts have a positive amount']


def jobs(tier):
    return shape_jobs(tier, ['recovered'], MORE)


def run(env, job):
    select_chain_params('elements')
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], job['aux'], tags=[])
    r = blind(env, s)
    if r.error != '':
        env.check(False, 'blinding-refused:' + r.error)
    env.check(r.num_successfully_blinded == requested(s), 'all-blinded')
    mine = [k for k, o in enumerate(s.outs) if o.kind == 'B']
    for k in mine:
        o, x, w = s.outs[k], s.tx.vout[k], s.tx.wit.vtxoutwit[k]
        proof = w.rangeproof
        u = x.unblind_confidential_pair(o.key, proof)
        env.check(u.error == '', 'right-key-unblinds')
        env.check(u.amount == o.amount, 'amount')
        env.check(u.asset.data == o.asset, 'asset')
        env.check(u.blinding_factor == r.blinding_factors[k], 'value-factor')
        env.check(u.asset_blinding_factor == r.asset_blinding_factors[k], 'asset-factor')
        env.check(isinstance(u.asset, CAsset) and isinstance(u.blinding_factor, Uint256), 'types')
        g = zkp.gen64(o.asset, u.asset_blinding_factor.data)
        env.check(zkp.is_gen(x.nAsset.commitment, g), 'asset-commitment')
        env.check(zkp.is_commit(x.nValue.commitment, zkp.commit64(u.blinding_factor.data, o.amount, g)), 'value-commitment')
        d = u.get_descriptor()
        env.check(isinstance(d, BlindingInputDescriptor), 'descriptor-type')
        env.check((d.asset.data == o.asset) & (d.amount == o.amount) & (d.blinding_factor == r.blinding_factors[k])
                  & (d.asset_blinding_factor == r.asset_blinding_factors[k]), 'descriptor')
    # what must not open an output
    k = mine[-1] if job['name'].endswith(('1', '3', '5', '7', '9')) else mine[0]
    o, x = s.outs[k], s.tx.vout[k]
    proof = s.tx.wit.vtxoutwit[k].rangeproof
    what = env.choose('what', ['key', 'script', 'length', 'proof'])
    if what == 'key':
        other = scalar(env, 'other-key', s.tags_)
        u = x.unblind_confidential_pair(CKey(other), proof)
        env.check(u.error != '', 'wrong-key-refused')
        for j in mine:
            if j != k:
                u = x.unblind_confidential_pair(s.outs[j].key, proof)
                env.check(u.error != '', 'key-of-another-output-refused')
    elif what in ('script', 'length'):
        old = bytes(x.scriptPubKey)
        n = len(old)
        if what == 'length':
            n = env.choose('n', [i for i in range(6) if i != n])
        new = env.bytes('script', n)
        if what == 'script':
            env.assume(new != old)
        x.scriptPubKey = CElementsScript(new)
        u = x.unblind_confidential_pair(o.key, proof)
        env.check(u.error != '', 'wrong-script-refused')
    else:
        for j in mine:
            if j != k:
                u = x.unblind_confidential_pair(o.key, s.tx.wit.vtxoutwit[j].rangeproof)
                env.check(u.error != '', 'proof-of-another-output-refused')
    env.reach('recovered')
