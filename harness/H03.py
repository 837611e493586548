"""H03: taproot and tapscript signature hashes"""
from harness.lib import mk_tx, tx, txout, mk_txout, field, CElementsScript, CConfidentialValue, wit_null
from harness.refhash import msg_schnorr, schnorr_hash, leaf_hash
from harness.sigshapes import sig_shapes, HIST_INS, HIST_OUTS, CHANGES, apply_change
from elementstx.core.script import ElementsSignatureHashSchnorr
from bitcointx.core.script import SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT, SIGHASH_Type

BOUNDS = ('transactions of 1..2 (thorough 1..4) inputs and 0..3 outputs with all field contents, witness vectors filled or '
          'left out where they are null, every input index, the default and all six explicit hash types, with and without '
          'annex hash, key path, script path with arbitrary leaf hash and code separator position, and the tapscript entry '
          'point with leaf scripts of 0..2 and 253 bytes; spent outputs of all kinds of asset and amount with scripts of '
          '0..2 and 253 bytes; two inputs of one transaction hashed, then one of %d changes of the object, the spent outputs or '
          'the object itself, then hashed again' % (len(CHANGES) + 3))
ASSUMPTIONS = ['equality of SHA-256 values is decided as equality of the hashed bytes']

TYPES = [None, 1, 2, 3, 0x81, 0x82, 0x83]
E, N, C = 'explicit', 'null', 'commitment'
SPENT = [[(E, E, N, 1), (C, C, C, 2), (E, C, N, 0), (E, E, N, 0)], [(C, E, N, 253), (N, N, N, 0), (E, E, N, 1), (C, C, N, 1)]]


def jobs(tier):
    out = []
    for name, ins, outs in sig_shapes(tier):
        for idx in range(len(ins)):
            for ht in TYPES:
                if ht in (3, 0x83) and idx >= len(outs):
                    continue
                out.append({'name': '%s-in%d-%s' % (name, idx, ht), 'ins': ins, 'outs': outs, 'idx': idx, 'ht': ht,
                            'reach': ['key', 'leaf', 'script']})
    for ht in TYPES:
        for c in CHANGES + ['spent-value', 'spent-script', 'spent-list']:
            out.append({'name': 'again-%s-%s' % (ht, c), 'op': 'again', 'ht': ht, 'change': c, 'reach': ['again']})
    return out


def again(env, job):
    """hashing an object again after a change gives what a new object with that content gives"""
    t = tx(env, HIST_INS, HIST_OUTS)
    o = mk_tx(t, True)
    idx = env.choose('idx', [0, 1])
    spent = [txout(env, 'spent%d' % k, *SPENT[0][k]) for k in range(2)]
    so = [mk_txout(s, True) for s in spent]
    genesis = env.bytes('genesis', 32)
    annex = env.bytes('annex', 32) if env.choose('has-annex', [False, True]) else None
    sc = env.bytes('script', 1)

    def ask(o, u, k, ht, sc, label):
        st = None if ht is None else SIGHASH_Type(ht)
        h = ElementsSignatureHashSchnorr(o, k, so, hashtype=st, annex_hash=annex, genesis_block_hash=genesis)
        env.check(h == schnorr_hash(genesis, msg_schnorr(u, k, spent, ht, annex)), label)
        h = CElementsScript(sc).sighash_schnorr(o, k, so, hashtype=st, annex_hash=annex, genesis_block_hash=genesis)
        env.check(h == schnorr_hash(genesis, msg_schnorr(u, k, spent, ht, annex, leaf_hash(sc), -1)), label)
    ask(o, t, idx, job['ht'], sc, 'first')
    ask(o, t, 1 - idx, {None: 3, 1: 0x82, 2: 1, 3: 1, 0x81: 3, 0x82: 0x81, 0x83: 2}[job['ht']], sc, 'other-input')
    c = job['change']
    u = t
    if c == 'spent-value':
        spent[0].value = field(env, 'c', 'value', C)
        so[0].nValue = CConfidentialValue(spent[0].value)
    elif c == 'spent-script':
        spent[1].script = env.bytes('c', 1)
        so[1].scriptPubKey = CElementsScript(spent[1].script)
    elif c == 'spent-list':
        spent = [txout(env, 'c'), txout(env, 'd', C, C, N)]
        so = [mk_txout(s, env.choose('mutable', [False, True])) for s in spent]
    else:
        u, o = apply_change(env, t, o, c)
    if env.choose('same-rest', [True, False]):
        sc2 = sc
    else:
        sc2, genesis = env.bytes('script2', 1), env.bytes('genesis2', 32)
    ask(o, u, env.choose('idx2', [0, 1]), job['ht'], sc2, 'after-change')
    env.reach('again')


def run(env, job):
    if job.get('op') == 'again':
        again(env, job)
        return
    t = tx(env, job['ins'], job['outs'])
    mut = env.choose('mutable', [False, True])
    o = mk_tx(t, mut, env.choose('vectors', ['both', 'none']) if wit_null(t) else 'both')
    idx = job['idx']
    ht = None if job['ht'] is None else SIGHASH_Type(job['ht'])
    spent = []
    pattern = env.choose('spent', SPENT)
    for k in range(len(t.vin)):
        a, v, n, s = pattern[k]
        spent.append(txout(env, 'spent%d' % k, a, v, n, s))
    so = [mk_txout(s, mut) for s in spent]
    if env.choose('tuple', [False, True]) if job['ht'] == 1 else False:
        so = tuple(so)
    annex = env.bytes('annex', 32) if env.choose('has-annex', [False, True]) else None
    genesis = env.bytes('genesis', 32)
    before = o.serialize()
    kind = env.choose('kind', ['key', 'leaf', 'script'])
    if kind == 'key':
        h = ElementsSignatureHashSchnorr(o, idx, so, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis)
        h2 = ElementsSignatureHashSchnorr(o, idx, so, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis,
                                          sigversion=SIGVERSION_TAPROOT)
        env.check(h == h2, 'taproot-is-default')
        m = msg_schnorr(t, idx, spent, job['ht'], annex)
    elif kind == 'leaf':
        leaf = env.bytes('leaf', 32)
        pos = env.int('codesep', -2**31, 2**31 - 1)
        h = ElementsSignatureHashSchnorr(o, idx, so, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis,
                                         sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=leaf, codeseparator_pos=pos)
        m = msg_schnorr(t, idx, spent, job['ht'], annex, leaf, pos)
    else:
        n = env.choose('script-len', [0, 1, 2, 253] if job['ht'] is None else [1])
        sc = env.bytes('script', n)
        s = CElementsScript(sc)
        if env.choose('default-pos', [False, True]):
            pos = -1
            h = s.sighash_schnorr(o, idx, so, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis)
        else:
            pos = env.int('codesep', -2**31, 2**31 - 1)
            h = s.sighash_schnorr(o, idx, so, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis,
                                  codeseparator_pos=pos)
        m = msg_schnorr(t, idx, spent, job['ht'], annex, leaf_hash(sc), pos)
    env.check(len(h) == 32 and h == schnorr_hash(genesis, m), 'hash')
    env.check(o.serialize() == before, 'transaction-unchanged')
    env.reach(kind)
