"""S06: transaction id and witness-inclusive hash"""
from harness.lib import (CElementsMutableTransaction, mk_tx, tx, ref_tx, dsha, Spec, norm_in, all_true, NOWIT,
                         mk_inwit, mk_outwit, CElementsMutableTxInWitness, CElementsMutableTxOutWitness)
from harness.txshapes import shapes, IN_KINDS, OUT_KINDS, W_STACK, W_FULL

BOUNDS = ('transactions in the shapes of harness/txshapes.py with every content, both mutability forms, also after changing '
          'a mutable transaction whose hash was already taken; pairs of transactions of one or two inputs and outputs '
          'whose shapes have equal or different lengths, every content (thorough: all pairs of the shapes listed)')
ASSUMPTIONS = ['SHA-256 has no collisions: equality of hash values is decided as equality of the hashed bytes']

PAIR_SHAPES = [
    ('plain', [dict()], [dict()]),
    ('script', [dict(script=2)], [dict()]),
    ('script1', [dict(script=1)], [dict(script=0)]),
    ('coinbase', [dict(coinbase=True)], [dict()]),
    ('iss', [dict(iss=('explicit', 'null'))], [dict()]),
    ('iss2', [dict(iss=('explicit', 'explicit'))], [dict(script=0)]),
    ('issn', [dict(iss=('null', 'explicit'))], [dict()]),
    ('issc', [dict(iss=('commitment', 'null'))], [dict()]),
    ('wit', [dict(wit=W_STACK)], [dict()]),
    ('witp', [dict(wit=(0, 0, (), (1,)))], [dict()]),
    ('wita', [dict(wit=(1, 0, (), ()))], [dict()]),
    ('witk', [dict(wit=(0, 1, (), ()))], [dict()]),
    ('wits', [dict()], [dict(wit=(1, 0))]),
    ('witr', [dict()], [dict(wit=(0, 1))]),
    ('fee', [dict()], [dict(script=0)]),
    ('conf', [dict()], [dict(kinds=('commitment',) * 3)]),
    ('confv', [dict()], [dict(kinds=('explicit', 'commitment', 'commitment'))]),
    ('null', [dict()], [dict(kinds=('null',) * 3)]),
    ('two', [dict(), dict()], [dict()]),
    ('two-out', [dict()], [dict(), dict(script=0)]),
    ('none', [], []),
]


def jobs(tier):
    out = []
    for name, ins, outs in shapes(tier):
        for m in (False, True):
            out.append({'name': 'id-%s-%s' % (name, 'mut' if m else 'imm'), 'op': 'id', 'ins': ins, 'outs': outs,
                        'mut': m, 'reach': ['id']})
    for a in range(len(PAIR_SHAPES)):
        for b in range(a, len(PAIR_SHAPES)):
            if a != b and tier != 'thorough' and (a * 31 + b * 17) % 3:
                continue
            out.append({'name': 'pair-%s-%s' % (PAIR_SHAPES[a][0], PAIR_SHAPES[b][0]), 'op': 'pair', 'a': a, 'b': b,
                        'reach': ['pair']})
    for k in range(9):
        out.append({'name': 'stale-%d' % k, 'op': 'stale', 'k': k, 'reach': ['stale']})
    return out


def eq(a, b):
    """equality of byte strings of concrete, possibly different lengths"""
    return len(a) == len(b) and a == b


def same_effects(a, b):
    if len(a.vin) != len(b.vin) or len(a.vout) != len(b.vout):
        return False
    c = [a.version == b.version, a.locktime == b.locktime]
    for x, y in zip(map(norm_in, a.vin), map(norm_in, b.vin)):
        c += [eq(x.hash, y.hash), x.n == y.n, eq(x.script, y.script), x.seq == y.seq, x.pegin == y.pegin,
              eq(x.iss.blinding_nonce, y.iss.blinding_nonce), eq(x.iss.entropy, y.iss.entropy),
              eq(x.iss.amount, y.iss.amount), eq(x.iss.keys, y.iss.keys)]
    for x, y in zip(a.vout, b.vout):
        c += [eq(x.asset, y.asset), eq(x.value, y.value), eq(x.nonce, y.nonce), eq(x.script, y.script)]
    return all_true(c)


def same_list(a, b):
    return all_true([len(a) == len(b)] + [eq(x, y) for x, y in zip(a, b)])


def same_witness(a, b):
    c = []
    for x, y in zip(a.inwit, b.inwit):
        c += [eq(x.amount_proof, y.amount_proof), eq(x.keys_proof, y.keys_proof), same_list(x.stack, y.stack),
              same_list(x.pegin_stack, y.pegin_stack)]
    for x, y in zip(a.outwit, b.outwit):
        c += [eq(x.surjection, y.surjection), eq(x.rangeproof, y.rangeproof)]
    return all_true(c)


def same(p, q):
    """p == q of two conditions"""
    return (p & q) | ((p == False) & (q == False))  # noqa: E712


def run(env, job):
    if job['op'] == 'id':
        t = tx(env, job['ins'], job['outs'])
        o = mk_tx(t, job['mut'])
        env.check(o.GetTxid() == dsha(ref_tx(t, witness=False)), 'txid')
        env.check(o.GetHash() == dsha(ref_tx(t)), 'hash')
        env.check(o.GetTxid() == dsha(ref_tx(t, witness=False)), 'txid-again')
        bare = Spec(version=t.version, locktime=t.locktime, vin=t.vin, vout=t.vout, inwit=[], outwit=[])
        b = mk_tx(bare, job['mut'])
        env.check(b.GetTxid() == o.GetTxid(), 'witness-independence')
        env.check(b.GetHash() == b.GetTxid(), 'hash-without-witness')
        env.reach('id')
        return
    if job['op'] == 'pair':
        _, ia, oa = PAIR_SHAPES[job['a']]
        _, ib, ob = PAIR_SHAPES[job['b']]
        a, b = tx(env, ia, oa, 'a'), tx(env, ib, ob, 'b')
        x, y = mk_tx(a), mk_tx(b, True)
        eff = same_effects(a, b)
        env.check(same(x.GetTxid() == y.GetTxid(), eff), 'txid-commits-to-exactly-the-effects')
        env.check(same(x.GetHash() == y.GetHash(), eff & same_witness(a, b)), 'hash-commits-to-everything')
        env.reach('pair')
        return
    # a hash taken earlier does not go stale when the mutable transaction changes
    t = tx(env, [dict(), dict(wit=W_STACK)], [dict(), dict(kinds=('commitment',) * 3, wit=(1, 1))])
    o = mk_tx(t, True)
    i1, h1 = o.GetTxid(), o.GetHash()
    k = job['k']
    if k == 0:
        t.version = o.nVersion = env.int('v2', -2**31, 2**31 - 1)
    elif k == 1:
        t.locktime = o.nLockTime = env.int('l2', 0, 2**32 - 1)
    elif k == 2:
        t.vin[0].n = o.vin[0].prevout.n = env.int('n2', 0, 0x3fffffff)
    elif k == 3:
        t.vin[1].hash = o.vin[1].prevout.hash = env.bytes('h2', 32)
    elif k == 4:
        t.vin[1].seq = o.vin[1].nSequence = env.int('s2', 0, 2**32 - 1)
    elif k == 5:
        t.vin[1].pegin = o.vin[1].is_pegin = env.bool('p2')
    elif k == 6:
        del o.vout[0]
        del o.wit.vtxoutwit[0]
        del t.vout[0]
        del t.outwit[0]
    elif k == 7:
        w = Spec(amount_proof=b'', keys_proof=b'', stack=[env.bytes('w2', 1)], pegin_stack=[])
        o.wit.vtxinwit[0] = mk_inwit(w, True)
        t.inwit[0] = w
    else:
        w = Spec(surjection=b'', rangeproof=env.bytes('w2', 2))
        o.wit.vtxoutwit[1] = mk_outwit(w, True)
        t.outwit[1] = w
    env.check(o.GetTxid() == dsha(ref_tx(t, witness=False)), 'txid-after-change')
    env.check(o.GetHash() == dsha(ref_tx(t)), 'hash-after-change')
    env.reach('stale')
