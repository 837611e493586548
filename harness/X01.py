"""X01: a transaction blinded by two parties in turn is as good as one blinded by one"""
from harness import zkp
from harness.blindlib import scene, random_source, requested, ZERO, MAX, Uint256
from harness.B01 import judge_balance
from harness.lib import Spec, mk_tx, mk_txin, mk_txout, mk_inwit, mk_outwit, CElementsScript
from bitcointx.core.key import CPubKey
from elementstx.core import (BlindingInputDescriptor, CAsset, CElementsMutableTransaction, unblind_confidential_pair)
from bitcointx import select_chain_params

# inputs and outputs as in blindlib with the party (x or y) in front; party x blinds first
SHAPES = [
    (['x:b', 'y:b'], ['x:B0', 'y:B1', 'y:F']),
    (['x:b', 'y:b'], ['x:B0', 'y:B1', 'x:B0', 'y:B1', 'y:F']),
    (['y:b', 'x:b'], ['y:B0', 'x:B1', 'x:F']),
    (['x:p', 'y:b'], ['x:B0', 'x:B0', 'y:B1']),
    (['x:b', 'y:p'], ['x:B0', 'y:B1', 'y:B1']),
    (['x:v', 'y:a'], ['y:B1', 'x:B0', 'y:K']),
    (['x:b', 'y:b', 'x:p', 'y:v'], ['x:B0', 'y:B1', 'y:B3', 'x:B2', 'y:F']),
    (['x:b', 'y:b='], ['x:B0', 'y:B1', 'y:F']),
    (['x:b/nA', 'y:b'], ['x:B0', 'x:B1', 'y:B2']),
    (['x:b', 'y:b/nATa'], ['x:B0', 'y:B2', 'y:B3', 'y:B1', 'y:F']),
    (['x:b/rA', 'y:b/rAa'], ['x:B1', 'x:B0', 'y:B2', 'y:B3']),
    (['x:s', 'y:s'], ['x:B0', 'y:B1']),
]
# party x blinds a transaction that has only its own inputs and outputs; those of y are appended later
TEMPLATES = [
    (['x:b', 'y:b', 'y:b', 'y:b'], ['x:B0', 'y:B1', 'y:B2', 'y:B3', 'y:F']),
    (['x:b', 'y:p'], ['x:B0', 'x:B0', 'y:B1', 'y:B1', 'y:F']),
    (['x:p', 'y:b'], ['x:B0', 'x:B0', 'y:B1']),
    (['x:b', 'x:v', 'y:a', 'y:b'], ['x:B1', 'x:B0', 'x:K', 'y:B3', 'y:B2']),
    (['x:b/nAT', 'y:b/nAa'], ['x:B1', 'x:B2', 'y:B3', 'y:F']),
    (['x:s', 'y:s='], ['x:B0', 'y:B1']),
    (['x:b', 'y:b/nATat'], ['x:B0', 'y:B2', 'y:B3', 'y:B1', 'y:F']),
]
MORE = [
    (['x:b', 'y:b', 'y:b', 'x:b'], ['y:B1', 'x:B0', 'y:B2', 'x:B3', 'x:B0', 'y:B1', 'x:F']),
    (['x:p/nAT', 'y:p/nATa'], ['x:B1', 'x:B2', 'y:B4', 'y:B5', 'x:B0', 'y:B3']),
    (['y:b/nATa', 'x:v/rA'], ['x:B4', 'y:B1', 'y:B2', 'y:B0']),
]
BOUNDS = ('%d shapes (thorough: %d) with up to 4 inputs and 5 outputs of two parties, where the second party continues on the transaction the '
          'first one blinded, and %d where it first appends its inputs and outputs to it; each party knows only its own inputs and has an '
          'auxiliary generator for every input; what stands there for its own inputs, amounts, assets, factors, scripts, keys and random values '
          'symbolic' % (len(SHAPES), len(SHAPES + MORE), len(TEMPLATES)))
ASSUMPTIONS = ['libsecp256k1-zkp is replaced by a functional model (harness/zkp.py)',
               'scalars are below ff00.. and do not end in a zero byte; inputs carry pairwise different assets unless made equal',
               'outputs that are blinded to spendable scripts have a positive amount; a party that blinds a single output has a blinded input',
               'the first party leaves its issuances explicit (blinding is refused once an issuance is a commitment; B03), and in the turns shapes '
               'the second party does not blind its reissuance tokens (the token has another id then, which the first party is not told)']


def jobs(tier):
    out = []
    for k, (i, o) in enumerate(SHAPES + (MORE if tier == 'thorough' else [])):
        out.append({'name': 'turns-%d' % k, 'ins': i, 'outs': o, 'template': False, 'reach': ['both']})
    for k, (i, o) in enumerate(TEMPLATES):
        out.append({'name': 'template-%d' % k, 'ins': i, 'outs': o, 'template': True, 'reach': ['both']})
    return out


def view(env, s, who, owners, oowners):
    """the scene as one party sees it"""
    v = Spec(ins=[], outs=[], desc=[], akeys=[], tkeys=[], pubs=[], aux=[], tags=[], tblind=[], gens=s.gens, what=s.what)
    for k, i in enumerate(s.ins):
        own = owners[k] == who
        v.aux.append(env.bytes('aux-of-own', 33) if own else zkp.ser_gen(zkp.gen64(i.asset, i.abf)))
        v.desc.append(s.desc[k] if own else BlindingInputDescriptor(
            asset=CAsset(), amount=env.choose('unknown-amount', [-1, 0]) if k == 0 else -1, blinding_factor=Uint256(),
            asset_blinding_factor=Uint256()))
        v.akeys.append(s.akeys[k] if own else None)
        v.tkeys.append(s.tkeys[k] if own else None)
        d = dict(i.__dict__)
        if not own:
            d.update(bf=ZERO, abf=ZERO, iss='')
        v.ins.append(Spec(**d))
    for k, o in enumerate(s.outs):
        own = oowners[k] == who
        v.pubs.append(s.pubs[k] if own else CPubKey())
        v.outs.append(o if own else Spec(kind='K', amount=0, key=None, target=None, asset=None))
    for t, b, (what, k) in zip(s.tags, s.tblind, s.what):
        known = what != 'in' or owners[k] == who
        v.tags.append(t if known else ZERO)
        v.tblind.append(b if known else ZERO)
    return v


def party(env, s, v, tx, nin, nout):
    return tx.blind(input_descriptors=v.desc[:nin], output_pubkeys=v.pubs[:nout], blind_issuance_asset_keys=v.akeys[:nin],
                    blind_issuance_token_keys=v.tkeys[:nin], auxiliary_generators=v.aux, _rand_func=random_source(env, s))


def parts(tx, outs):
    """what the transaction says about some of its outputs"""
    r = b''
    for k in outs:
        r = r + tx.vout[k].serialize() + tx.wit.vtxoutwit[k].serialize()
    return r


def run(env, job):
    select_chain_params('elements')
    lib = zkp.install(env)
    owners = [w[0] for w in job['ins']]
    oowners = [w[0] for w in job['outs']]
    s = scene(env, [w[2:] for w in job['ins']], [w[2:] for w in job['outs']], None)
    for i in s.ins:
        if i.kind == 's':
            env.assume((i.bf[0] != 0) | (i.abf[0] != 0))
    x, y = view(env, s, 'x', owners, oowners), view(env, s, 'y', owners, oowners)
    nin, nout = len(s.ins), len(s.outs)
    if job['template']:
        a, b = owners.count('x'), oowners.count('x')
        t = Spec(version=2, locktime=s.t.locktime, vin=s.t.vin[:a], vout=s.t.vout[:b], inwit=s.t.inwit[:a], outwit=s.t.outwit[:b])
        tx = mk_tx(t, mutable=True)
        # beyond its own inputs it is told every generator the final transaction will have
        x.aux = x.aux[:a] + [zkp.ser_gen(g) for g, (what, k) in zip(s.gens, s.what) if owners[k] == 'y']
        r1 = party(env, s, x, tx, a, b)
    else:
        tx = s.tx
        r1 = party(env, s, x, tx, nin, nout)
    if r1.error != '':
        env.check(False, 'first-refused:' + r1.error)
    env.check(r1.num_successfully_blinded == requested(x), 'first-blinds-its-own')
    records = True
    if job['template']:
        records = env.choose('records appended', [True, False])
        for k in range(a, nin):
            tx.vin.append(mk_txin(s.t.vin[k], True))
            if records:
                tx.wit.vtxinwit.append(mk_inwit(s.t.inwit[k], True))
        for k in range(b, nout):
            tx.vout.append(mk_txout(s.t.vout[k], True))
            if records:
                tx.wit.vtxoutwit.append(mk_outwit(s.t.outwit[k], True))
    # the transaction travels to the other party
    tx = CElementsMutableTransaction.deserialize(tx.serialize()) if records and env.choose('sent', [True, False]) else tx
    first = [k for k in range(nout) if oowners[k] == 'x']
    before = parts(tx, first)
    iss = [(i.assetIssuance.serialize(), w.serialize()) for i, w, p in zip(tx.vin, tx.wit.vtxinwit, owners) if p == 'x']
    n1, p1 = len(lib.sums), len(lib.surj)
    r2 = party(env, s, y, tx, nin, nout)
    if r2.error != '':
        env.check(False, 'second-refused:' + r2.error)
    env.check(r2.num_successfully_blinded == requested(y), 'second-blinds-its-own')
    after = parts(tx, first)
    env.check(len(before) == len(after) and before == after, 'first-outputs-untouched')
    for (i, w), (j, u) in zip(iss, [(i.assetIssuance.serialize(), w.serialize())
                                    for i, w, p in zip(tx.vin, tx.wit.vtxinwit, owners) if p == 'x']):
        env.check(len(i) == len(j) and i == j and len(w) == len(u) and w == u, 'first-issuances-untouched')
    # the parts balance, each on its own, so the whole does
    env.check(n1 == 1 and len(lib.sums) == 2, 'balanced-once-each')
    s.tx = x.tx = y.tx = tx
    r1 = Spec(blinding_factors=list(r1.blinding_factors), asset_blinding_factors=list(r1.asset_blinding_factors))
    judge_balance(env, x, Spec(sums=lib.sums[:1]), r1)
    judge_balance(env, y, Spec(sums=lib.sums[1:]), r2)
    # every surjection proof stands against the generators of the final transaction
    gens = s.gens
    for v, r, proofs in ((x, r1, lib.surj[:p1]), (y, r2, lib.surj[p1:])):
        mine = [k for k, o in enumerate(v.outs) if o.kind == 'B']
        env.check(len(proofs) == len(mine), 'one-proof-per-output')
        for p, k in zip(proofs, mine):
            env.check(len(p['gens']) == len(gens), 'number-of-generators')
            for g, h in zip(p['gens'], gens):
                env.check(zkp.same(g, h), 'generator')
            env.check(zkp.is_gen(tx.vout[k].nAsset.commitment, p['out']), 'asset-commitment')
            env.check(p['valid'], 'proof-verifies')
            w = tx.wit.vtxoutwit[k]
            env.check(len(w.surjectionproof) == len(p['proof']) and w.surjectionproof == p['proof'], 'proof-is-stored')
    # and every recipient opens its output
    for v, r in ((x, r1), (y, r2)):
        k = [k for k, o in enumerate(v.outs) if o.kind == 'B'][-1]
        o = s.outs[k]
        u = tx.vout[k].unblind_confidential_pair(o.key, tx.wit.vtxoutwit[k].rangeproof)
        env.check(u.error == '', 'recipient-opens')
        env.check((u.amount == o.amount) & (u.asset.data == o.asset), 'recipient-sees')
    env.reach('both')
