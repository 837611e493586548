"""S08: derived predicates"""
from harness.lib import (CElementsTransaction, CElementsMutableTransaction, CElementsTxWitness, CElementsMutableTxWitness,
                         CElementsTxOut, CElementsMutableTxOut, CConfidentialAsset, CConfidentialValue,
                         CConfidentialNonce, CElementsScript, CAssetIssuance, Uint256, mk_inwit, mk_outwit, inwit, outwit,
                         inwit_null, outwit_null, CElementsTxIn, CElementsMutableTxIn, mk_tx, tx, issuance, mk_issuance)

BOUNDS = ('outputs whose asset, value and nonce hold any bytes of any admissible length (0, explicit size, 33) and scripts '
          'of 0..2 bytes; issuances likewise; transactions of 0..3 (thorough 0..4) inputs with every combination of null, '
          'explicit and committed amounts; witnesses of 0..2 input and output records (thorough 0..3) with proofs of 0..1 '
          'bytes and stacks of 0..1 items; both mutability forms')
ASSUMPTIONS = []

ISS = [None, ('explicit', 'null'), ('null', 'explicit'), ('explicit', 'commitment'), ('commitment', 'explicit')]


def jobs(tier):
    th = tier == 'thorough'
    out = []
    for m in (False, True):
        s = 'mut' if m else 'imm'
        for a in (0, 33):
            for v in (0, 9, 33):
                for n in (0, 33):
                    for l in (0, 1, 2):
                        out.append({'name': 'out-%d-%d-%d-%d-%s' % (a, v, n, l, s), 'op': 'out', 'sizes': (a, v, n), 'script': l,
                                    'mut': m, 'reach': ['out']})
        for n in range(5 if th else 4):
            out.append({'name': 'count-%d-%s' % (n, s), 'op': 'count', 'n': n, 'mut': m, 'reach': ['count']})
        k = 4 if th else 3
        for a in range(k):
            for b in range(k):
                out.append({'name': 'wit-%d-%d-%s' % (a, b, s), 'op': 'wit', 'a': a, 'b': b, 'mut': m, 'reach': ['wit']})
    for a in (0, 9, 33):
        for k in (0, 9, 33):
            out.append({'name': 'iss-%d-%d' % (a, k), 'op': 'iss', 'a': a, 'k': k, 'reach': ['iss']})
    for what, sizes in (('value', (0, 9, 33)), ('asset', (0, 33)), ('nonce', (0, 33))):
        for n in sizes:
            out.append({'name': 'field-%s-%d' % (what, n), 'op': 'field', 'what': what, 'n': n, 'reach': ['field']})
    return out


def count(cond):
    return 1 if cond else 0


def run(env, job):
    op = job['op']
    if op == 'out':
        a, v, n = job['sizes']
        da, dv, dn = env.bytes('asset', a), env.bytes('value', v), env.bytes('nonce', n)
        sc = env.bytes('script', job['script'])
        o = (CElementsMutableTxOut if job['mut'] else CElementsTxOut)(
            CConfidentialValue(dv), CElementsScript(sc), CConfidentialAsset(da), CConfidentialNonce(dn))
        asset_explicit = a == 33 and da[0] == 1
        value_explicit = v == 9 and dv[0] == 1
        env.check(o.is_fee() == (job['script'] == 0 and value_explicit and asset_explicit), 'is-fee')
        env.check(o.is_null() == (a == 0 and v == 0 and n == 0 and job['script'] == 0), 'is-null')
        env.reach('out')
    elif op == 'iss':
        nonce, ent = env.bytes('nonce', 32), env.bytes('entropy', 32)
        i = CAssetIssuance(Uint256(nonce), Uint256(ent), CConfidentialValue(env.bytes('amount', job['a'])),
                           CConfidentialValue(env.bytes('keys', job['k'])))
        env.check(i.is_null() == (job['a'] == 0 and job['k'] == 0), 'issuance-null')
        env.check(CAssetIssuance().is_null(), 'default-issuance-null')
        env.reach('iss')
    elif op == 'field':
        cls, ex, pref = {'value': (CConfidentialValue, 9, (8, 9)), 'asset': (CConfidentialAsset, 33, (10, 11)),
                         'nonce': (CConfidentialNonce, 33, (2, 3))}[job['what']]
        n = job['n']
        d = env.bytes('data', n)
        c = cls(d)
        expl = n == ex and d[0] == 1
        comm = n == 33 and (d[0] == pref[0] or d[0] == pref[1])
        env.check(c.is_null() == (n == 0), 'field-null')
        env.check(c.is_explicit() == expl, 'field-explicit')
        env.check(c.is_commitment() == comm, 'field-commitment')
        env.check(c.is_valid() == (n == 0 or expl or comm), 'field-valid')
        env.reach('field')
    elif op == 'count':
        ins = [dict(iss=env.choose('iss', ISS), pegin=False) for _ in range(job['n'])]
        outs = [dict()] * env.choose('nout', [0, 1])
        t = tx(env, ins, outs)
        o = mk_tx(t, job['mut'])
        want = 0
        for d in ins:
            if d['iss']:
                want += (d['iss'][0] != 'null') + (d['iss'][1] != 'null')
        env.check(o.num_issuances == want, 'issuance-count')
        env.check(o.is_null() == (job['n'] == 0 and not outs), 'tx-null')
        env.reach('count')
    else:
        opts_in = [(0, 0, (), ()), (1, 0, (), ()), (0, 1, (), ()), (0, 0, (0,), ()), (0, 0, (), (1,))]
        opts_out = [(0, 0), (1, 0), (0, 1)]
        iw = [inwit(env, 'i%d' % k, env.choose('shape', opts_in)) for k in range(job['a'])]
        ow = [outwit(env, 'o%d' % k, env.choose('shape', opts_out)) for k in range(job['b'])]
        w = (CElementsMutableTxWitness if job['mut'] else CElementsTxWitness)(
            [mk_inwit(x, job['mut']) for x in iw], [mk_outwit(x, job['mut']) for x in ow])
        want = True
        for x in iw:
            if not inwit_null(x):
                want = False
        for x in ow:
            if not outwit_null(x):
                want = False
        env.check(w.is_null() == want, 'witness-null')
        for x, r in zip(iw, w.vtxinwit):
            env.check(r.is_null() == inwit_null(x), 'input-record-null')
        for x, r in zip(ow, w.vtxoutwit):
            env.check(r.is_null() == outwit_null(x), 'output-record-null')
        env.reach('wit')
