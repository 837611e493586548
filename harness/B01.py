"""B01: blinding preserves the value balance"""
from harness import zkp
from harness.blindlib import scene, blind, requested, shape_jobs, SHAPES, ZERO
from bitcointx import select_chain_params

BOUNDS = ('transactions of %d shapes with up to 6 inputs and 6 outputs (thorough: also every pair of input kinds with several output patterns), every mix of blinded, half blinded, '
          'unblinded and unknown inputs, new issuances and reissuances; all amounts in the money range, assets, factors, prevouts, '
          'entropies, keys and random values symbolic' % len(SHAPES))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py); its balancing primitive makes the sum of '
               'value * asset factor + value factor over the first nin entries equal to the sum over the rest',
               'scalars are below ff00.. and do not end in a zero byte; inputs carry pairwise different assets',
               'outputs that are blinded to spendable scripts have a positive amount']



def jobs(tier):
    return shape_jobs(tier, ['balanced'])


def run(env, job):
    select_chain_params('elements')
    lib = zkp.install(env)
    s = scene(env, job['ins'], job['outs'], job['aux'])
    r = blind(env, s, trim=env.choose('trim', [False, True]))
    if r.error != '':
        env.check(False, 'blinding-refused:' + r.error)
    env.check(r.num_successfully_blinded == requested(s), 'all-blinded')
    env.check(len(lib.sums) == 1, 'balanced-once')
    judge_balance(env, s, lib, r)
    env.reach('balanced')


def judge_balance(env, s, lib, r):
    c = lib.sums[0]
    # blinded inputs, issuances, outputs: (amount, asset factor, value factor or None)
    want = []
    for i in s.ins:
        if i.bf != ZERO or i.abf != ZERO:
            want.append((i.amount, i.abf, i.bf))
    pos = {}
    for k, i in enumerate(s.ins):
        if 'a' in i.iss[1:]:
            pos[k, 'a'] = len(want)
            want.append((i.iamount, ZERO, None))
        if 't' in i.iss[1:]:
            pos[k, 't'] = len(want)
            want.append((i.tamount, ZERO, None))
    nin = len(want)
    for k, o in enumerate(s.outs):
        if o.kind == 'B':
            pos[k, 'o'] = len(want)
            want.append((o.amount, r.asset_blinding_factors[k].data, r.blinding_factors[k].data))
    env.check(len(c['values']) == len(want) and c['nin'] == nin, 'number-of-terms')
    n = len(want)
    for k in range(n):
        a, ab, b = want[k]
        env.check(c['values'][k] == a, 'amount')
        env.check(c['gblinds'][k] == ab, 'asset-factor')
        if b is not None and k < n - 1:
            env.check(c['blinds'][k] == b, 'value-factor')
    env.check(want[n - 1][2] == c['result'], 'last-factor-is-the-derived-one')
    for (k, what), p in pos.items():
        b = c['result'] if p == n - 1 else c['blinds'][p]
        if what == 'o':
            o, x = s.outs[k], s.tx.vout[k]
            g = zkp.gen64(o.asset, r.asset_blinding_factors[k].data)
            env.check(zkp.is_gen(x.nAsset.commitment, g), 'asset-commitment')
            env.check(zkp.is_commit(x.nValue.commitment, zkp.commit64(b, o.amount, g)), 'value-commitment')
        else:
            i, y = s.ins[k], s.tx.vin[k].assetIssuance
            a, asset = (i.iamount, i.iasset) if what == 'a' else (i.tamount, i.token)
            f = y.nAmount if what == 'a' else y.nInflationKeys
            env.check(zkp.is_commit(f.commitment, zkp.commit64(b, a, zkp.gen64(asset, ZERO))), 'issuance-commitment')
    if not env.sym:
        # the equation itself, on concrete data
        t = 0
        for k in range(n):
            a, ab, b = want[k]
            if b is None:
                b = c['blinds'][k]
            v = a * int.from_bytes(ab, 'big') + int.from_bytes(b, 'big')
            t += v if k < nin else -v
        env.check(t % zkp.N == 0, 'equation')
