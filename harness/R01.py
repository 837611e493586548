"""R01: every secret of a blinding is a draw of its own from the random source"""
from harness import zkp
from harness.blindlib import scene, blind, requested, scalar, shape_jobs, SHAPES, ZERO
from harness.lib import mk_tx
from bitcointx.core.key import CKey
from elementstx.core import generate_output_rangeproof_nonce
from bitcointx import select_chain_params

MORE = [
    (['b'], ['B0o', 'B0r'], None),
    (['b', 'b='], ['B0', 'B0', 'B0'], None),
    (['p', 'p/nATat'], ['B0', 'B2', 'B3', 'K', 'B1r'], None),
    (['b'], ['B0', 'B0', 'B0', 'C', 'B0'], None),
]
BOUNDS = ('transactions of %d shapes with up to 6 inputs and 6 outputs (thorough: also every pair of input kinds), with the given random '
          'source and with the default one, to different recipients and to the same one, blinded once and, from the same draws, twice; draws, amounts, assets, factors, scripts and keys '
          'symbolic' % (len(SHAPES) + len(MORE)))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py)',
               'scalars are below ff00.. and do not end in a zero byte; inputs carry pairwise different assets; keys, random values and blinding factors '
               'differ pairwise in their second byte, so that two uses are equal exactly when they are the same draw',
               'outputs that are blinded to spendable scripts have a positive amount']


def jobs(tier):
    out = []
    for j in shape_jobs(tier, [], MORE):
        k = int(j['name'].split('-')[1])
        for source in ('given', 'default'):
            if source == 'default' and tier == 'quick' and k % 3:
                continue
            out.append(dict(j, name='%s-%s' % (j['name'], source), source=source, op='fresh', reach=['fresh']))
        if sum(1 for w in j['outs'] if w[0] == 'B') > 1 and (tier != 'quick' or k % 2 == 0):
            out.append(dict(j, name='%s-recipient' % j['name'], source='given', op='fresh', same=True, reach=['fresh']))
        if not any('=' in w or w[0] == 's' for w in j['ins']) and (tier != 'quick' or k % 4 == 0):
            out.append(dict(j, name='%s-again' % j['name'], op='again', reach=['again']))
    out.append({'name': 'nonce', 'op': 'nonce', 'reach': ['nonce']})
    return out


def run(env, job):
    select_chain_params('elements')
    if job['op'] == 'nonce':
        return ephemeral(env)
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], job['aux'], tags=[])
    if job.get('same'):
        # all outputs go to one recipient
        pubs = [p for p in s.pubs if len(p)]
        s.pubs = [pubs[0] if len(p) else p for p in s.pubs]
    if job['op'] == 'again':
        return again(env, s, lib)
    if job['source'] == 'given':
        r = blind(env, s)
    else:
        # the default source; what the library asks for itself (context seeds) is not a secret of the transaction
        def urandom(n):
            r = scalar(env, 'urandom', s.tags_) if n == 32 else env.bytes('urandom', n)
            s.rand.append(r)
            return r
        env.urandom(urandom)
        a = dict(input_descriptors=s.desc, output_pubkeys=s.pubs, blind_issuance_asset_keys=s.akeys, blind_issuance_token_keys=s.tkeys,
                 auxiliary_generators=s.aux)
        r = s.tx.blind(**a)
    env.check(r.ok, 'blinded')
    env.check(r.num_successfully_blinded == requested(s), 'count')
    env.check(all(len(d) == 32 for d in s.rand), 'draw-size')
    uses = []
    mine = [k for k, o in enumerate(s.outs) if o.kind == 'B']
    for n, k in enumerate(mine):
        uses.append(('asset-factor', r.asset_blinding_factors[k].data))
        if n != len(mine) - 1:
            uses.append(('value-factor', r.blinding_factors[k].data))
        # the nonce of the output is the public key of a draw
        c = s.tx.vout[k].nNonce.commitment
        env.check(len(c) == 33, 'nonce-kind')
        secrets = [t for t, x in lib.pubs if env.certain(c == zkp.pub33(x))]
        env.check(len(secrets) != 0, 'nonce-from-secret')
        uses.append(('ephemeral-key', secrets[0]))
    issued = sum(('a' in i.iss[1:]) + ('t' in i.iss[1:]) for i in s.ins)
    env.check(len(lib.proofs) == issued + len(mine), 'range-proofs')
    for p in lib.proofs[:issued]:
        uses.append(('issuance-factor', p['blind']))
    for p in lib.surj:
        uses.append(('surjection-seed', p['seed']))
    for what, u in uses:
        hit = False
        for d in s.rand:
            hit = hit | (d == u)
        env.check(hit, what + '-is-drawn')
    for i in range(len(uses)):
        for j in range(i):
            env.check(uses[i][1] != uses[j][1], '%s-differs-from-%s' % tuple(sorted((uses[i][0], uses[j][0]))))
    for i in range(issued, len(lib.proofs)):
        for j in range(issued, i):
            env.check(lib.proofs[i]['nonce'] != lib.proofs[j]['nonce'], 'range-proof-nonces-differ')
    env.reach('fresh')


def again(env, s, lib):
    """the same draws give the same transaction"""
    r = blind(env, s)
    env.check(r.ok, 'blinded')
    first, draws = s.tx.serialize(), list(s.rand)
    left = list(draws)

    def replay(n):
        env.check(len(left) != 0, 'draws-again')
        return left.pop(0)
    s.tx = mk_tx(s.t, mutable=True)
    q = blind(env, s, _rand_func=replay)
    env.check(q.ok, 'blinded-again')
    env.check(len(left) == 0, 'draws-again')
    second = s.tx.serialize()
    env.check(len(first) == len(second) and first == second, 'same-transaction')
    for x, y in zip(list(r.blinding_factors) + list(r.asset_blinding_factors), list(q.blinding_factors) + list(q.asset_blinding_factors)):
        env.check(x.data == y.data, 'same-factors')
    env.reach('again')


def ephemeral(env):
    zkp.install(env)
    draws = []

    def rand(n):
        env.check(n == 32, 'draw-size')
        draws.append(scalar(env, 'rand'))
        return draws[-1]
    secret = scalar(env, 'key')
    lib = zkp.install(env)
    nonce, pub = generate_output_rangeproof_nonce(CKey(secret).pub, _rand_func=rand)
    env.check(len(draws) == 1, 'draws')
    env.check(pub == zkp.pub33(lib.pub_x(draws[0])), 'ephemeral-key')
    env.reach('nonce')
