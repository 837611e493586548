"""transactions used by the signature hash harnesses: (name, inputs, outputs)"""
from harness.lib import (Spec, tx, txout, inwit, outwit, issuance, null_issuance, field, mk_tx, mk_txout, mk_inwit, mk_outwit, mk_issuance,
                         CElementsMutableOutPoint, CElementsMutableTxWitness, CElementsScript, CConfidentialValue,
                         CConfidentialAsset, CConfidentialNonce)
from harness.txshapes import EXPL, CONF, FEE, W_STACK

E, N, C = 'explicit', 'null', 'commitment'


def sig_shapes(tier):
    out = [
        ('1-1', [dict(script=1)], [dict()]),
        ('1-0', [dict()], []),
        ('2-1', [dict(script=2), dict(iss=(E, N), wit=(1, 0, (), ()))], [dict(kinds=CONF, wit=(1, 2))]),
        ('2-2', [dict(iss=(E, E), wit=(2, 1, (1,), ())), dict()], [dict(kinds=CONF, wit=(0, 1)), FEE]),
        ('1-2', [dict(iss=(C, C), wit=(3, 2, (), ()))], [dict(script=0), dict(kinds=(N, N, N))]),
        ('2-3', [dict(), dict(iss=(N, E))], [dict(), FEE, dict(kinds=(E, C, C), script=2)]),
    ]
    if tier == 'thorough':
        for a in (None, (E, N), (N, C), (C, E)):
            for b in (None, (E, E), (C, C)):
                out.append(('3-%s-%s' % (a and ''.join(x[0] for x in a), b and ''.join(x[0] for x in b)),
                            [dict(iss=a, script=1), dict(), dict(iss=b, wit=(1, 1, (2,), (1,)))],
                            [dict(kinds=CONF, wit=(1, 1)), dict(), FEE]))
        out.append(('coinbase', [dict(coinbase=True, script=3)], [dict(), FEE]))
        out.append(('coinbase-iss', [dict(coinbase=True, iss=(E, N)), dict()], [dict()]))
        out.append(('4-1', [dict()] * 4, [dict()]))
    return out


# a transaction that is hashed, changed in one respect and hashed again
HIST_INS = [dict(script=1, pegin=False), dict(iss=(E, E), wit=(2, 1, (1,), ()), pegin=False)]
HIST_OUTS = [dict(kinds=CONF, wit=(0, 1)), dict()]
CHANGES = ['nothing', 'version', 'locktime', 'hash', 'n', 'prevout', 'seq', 'sig', 'issuance', 'no-issuance', 'value', 'asset', 'nonce',
           'spk', 'out-item', 'out-added', 'outs', 'swap-ins', 'swap-outs', 'proof', 'rangeproof', 'wit', 'object']


def copy(t):
    return Spec(version=t.version, locktime=t.locktime, vin=[Spec(**vars(i)) for i in t.vin], vout=[Spec(**vars(o)) for o in t.vout],
                inwit=[Spec(**vars(w)) for w in t.inwit], outwit=[Spec(**vars(w)) for w in t.outwit])


def apply_change(env, t, o, what):
    """-> (what the transaction is now, the object)"""
    u = copy(t)
    if what == 'version':
        u.version = o.nVersion = env.int('c', -2**31, 2**31 - 1)
    elif what == 'locktime':
        u.locktime = o.nLockTime = env.int('c', 0, 2**32 - 1)
    elif what == 'hash':
        u.vin[0].hash = env.bytes('c', 32)
        o.vin[0].prevout.hash = u.vin[0].hash
    elif what == 'n':
        u.vin[1].n = o.vin[1].prevout.n = env.int('c', 0, 0x3ffffffe)
    elif what == 'prevout':
        u.vin[0].hash, u.vin[0].n = env.bytes('c', 32), 5
        o.vin[0].prevout = CElementsMutableOutPoint(u.vin[0].hash, 5)
    elif what == 'seq':
        u.vin[1].seq = o.vin[1].nSequence = env.int('c', 0, 0xffffffff)
    elif what == 'sig':
        u.vin[0].script = env.bytes('c', 2)
        o.vin[0].scriptSig = CElementsScript(u.vin[0].script)
    elif what == 'issuance':
        u.vin[0].iss = issuance(env, 'c', E, N)
        o.vin[0].assetIssuance = mk_issuance(u.vin[0].iss)
    elif what == 'no-issuance':
        u.vin[1].iss = null_issuance()
        o.vin[1].assetIssuance = mk_issuance(u.vin[1].iss)
    elif what == 'value':
        u.vout[0].value = field(env, 'c', 'value', E)
        o.vout[0].nValue = CConfidentialValue(u.vout[0].value)
    elif what == 'asset':
        u.vout[1].asset = field(env, 'c', 'asset', C)
        o.vout[1].nAsset = CConfidentialAsset(u.vout[1].asset)
    elif what == 'nonce':
        u.vout[1].nonce = field(env, 'c', 'nonce', C)
        o.vout[1].nNonce = CConfidentialNonce(u.vout[1].nonce)
    elif what == 'spk':
        u.vout[0].script = env.bytes('c', 1)
        o.vout[0].scriptPubKey = CElementsScript(u.vout[0].script)
    elif what == 'out-item':
        u.vout[1] = txout(env, 'c')
        o.vout[1] = mk_txout(u.vout[1], True)
    elif what == 'out-added':
        u.vout.append(txout(env, 'c'))
        u.outwit.append(outwit(env, 'c', (1, 0)))
        o.vout.append(mk_txout(u.vout[2], True))
        o.wit.vtxoutwit.append(mk_outwit(u.outwit[2], True))
    elif what == 'outs':
        u.vout = [txout(env, 'c'), txout(env, 'd', C, C, C)]
        o.vout = [mk_txout(x, True) for x in u.vout]
    elif what == 'swap-ins':
        u.vin.reverse()
        o.vin.reverse()
        u.inwit.reverse()
        o.wit.vtxinwit.reverse()
    elif what == 'swap-outs':
        u.vout.reverse()
        o.vout.reverse()
        u.outwit.reverse()
        o.wit.vtxoutwit.reverse()
    elif what == 'proof':
        u.inwit[1].amount_proof = env.bytes('c', 2)
        o.wit.vtxinwit[1].issuanceAmountRangeproof = u.inwit[1].amount_proof
    elif what == 'rangeproof':
        u.outwit[1].rangeproof = env.bytes('c', 2)
        o.wit.vtxoutwit[1].rangeproof = u.outwit[1].rangeproof
    elif what == 'wit':
        u.inwit = [inwit(env, 'c', (1, 2, (), ())), inwit(env, 'd', (0, 0, (1,), ()))]
        u.outwit = [outwit(env, 'c', (1, 1)), outwit(env, 'd', (0, 0))]
        o.wit = CElementsMutableTxWitness([mk_inwit(w, True) for w in u.inwit], [mk_outwit(w, True) for w in u.outwit])
    elif what == 'object':
        u = tx(env, HIST_INS, HIST_OUTS, 'second-')
        o = mk_tx(u, env.choose('mutable', [False, True]))
    return u, o
