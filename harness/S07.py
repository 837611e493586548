"""S07: mutable and immutable forms agree and do not share state"""
from harness.lib import (CElementsTransaction, CElementsMutableTransaction, CElementsTxIn, CElementsMutableTxIn,
                         CElementsTxOut, CElementsMutableTxOut, CElementsOutPoint, CElementsMutableOutPoint,
                         CElementsTxInWitness, CElementsTxOutWitness, CElementsTxWitness,
                         CElementsMutableTxInWitness, CElementsMutableTxOutWitness, CElementsMutableTxWitness,
                         CAssetIssuance, CConfidentialAsset, CConfidentialValue, CConfidentialNonce, CElementsScript,
                         CScriptWitness, Uint256, mk_tx, mk_txin, mk_txout, mk_inwit, mk_outwit, mk_issuance, tx, txin,
                         txout, inwit, outwit, issuance, null_issuance, ref_tx, ref_txin, ref_txout, ref_inwit,
                         ref_outwit, dsha, NOWIT, W_FULL_SHAPE, Spec)

BOUNDS = ('one object of each kind (outpoint, input with any issuance kind, output of any confidential kinds, witness '
          'records, transaction of two inputs and two outputs, with and without witness; witnesses of 0..2 input and 0..2 output records), every content; every sequence '
          'of convert / clone / build followed by one change of any field of the source to any value (nested fields and '
          'lists included); byte arrays given to constructors and changed afterwards at any position to any value; '
          'assignment and deletion of every field of every immutable class')
ASSUMPTIONS = ['a byte array given as outpoint hash is kept by the underlying bitcointx class (outside this repository) and '
               'is not covered']

ISS = [None, ('explicit', 'null'), ('null', 'explicit'), ('commitment', 'commitment')]
OUTK = [('explicit', 'explicit', 'null'), ('commitment', 'commitment', 'commitment'), ('null', 'null', 'null')]
TXCH = ['version', 'locktime', 'outpoint-hash', 'outpoint-n', 'prevout', 'scriptSig', 'sequence', 'issuance', 'pegin',
        'vin-item', 'vin-append', 'vin-del', 'vin', 'value', 'asset', 'nonce', 'scriptPubKey', 'vout-item',
        'vout-append', 'vout-del', 'vout', 'inwit-item', 'inwit-append', 'inwit-script', 'inwit-proof', 'inwit-kproof',
        'inwit-pegin', 'outwit-item', 'outwit-del', 'outwit-surjection', 'outwit-rangeproof', 'vtxinwit', 'vtxoutwit',
        'wit']


def jobs(tier):
    out = []
    for k in range(len(ISS)):
        out.append({'name': 'txin-%d' % k, 'op': 'part', 'what': 'txin', 'iss': ISS[k], 'reach': ['part']})
    for k in range(len(OUTK)):
        out.append({'name': 'txout-%d' % k, 'op': 'part', 'what': 'txout', 'kinds': OUTK[k], 'reach': ['part']})
    for w in ('outpoint', 'inwit', 'outwit'):
        out.append({'name': w, 'op': 'part', 'what': w, 'reach': ['part']})
    for wit in (False, True):
        for ch in TXCH:
            if not wit and ch.startswith(('inwit-', 'outwit-')) and tier != 'thorough':
                continue
            out.append({'name': 'tx-%s-%s' % ('wit' if wit else 'nowit', ch), 'op': 'tx', 'wit': wit, 'change': ch,
                        'reach': ['tx']})
    for a in ('value', 'asset', 'nonce', 'inwit', 'outwit', 'uint', 'script'):
        out.append({'name': 'bytearray-' + a, 'op': 'ba', 'what': a, 'reach': ['ba']})
    for n in range(3):
        for m in range(3):
            out.append({'name': 'witness-%d-%d' % (n, m), 'op': 'wit', 'n': n, 'm': m, 'reach': ['wit']})
    out.append({'name': 'setattr', 'op': 'set', 'reach': ['set']})
    return out


def part(env, job, nm=''):
    """(spec, maker, encoder, {field: setter(obj, spec)})"""
    w = job['what']
    if w == 'outpoint':
        s = Spec(hash=env.bytes(nm + 'hash', 32), n=env.int(nm + 'n', 0, 0xffffffff))

        def mk(s, m):
            return (CElementsMutableOutPoint if m else CElementsOutPoint)(s.hash, s.n)

        def enc(s):
            return s.hash + s.n.to_bytes(4, 'little')
        return s, mk, enc, ['hash', 'n']
    if w == 'txin':
        s = txin(env, nm + 'in', script=1, iss=job['iss'], n_hi=0x3ffffffe)
        return s, mk_txin, ref_txin, ['hash', 'n', 'script', 'seq', 'iss', 'pegin', 'prevout']
    if w == 'txout':
        s = txout(env, nm + 'out', *job['kinds'])
        return s, mk_txout, ref_txout, ['asset', 'value', 'nonce', 'script']
    if w == 'inwit':
        s = inwit(env, nm + 'w', W_FULL_SHAPE)
        return s, mk_inwit, ref_inwit, ['amount_proof', 'keys_proof', 'stack', 'pegin_stack']
    s = outwit(env, nm + 'w', (2, 3))
    return s, mk_outwit, ref_outwit, ['surjection', 'rangeproof']


def change(env, w, o, f):
    """change field f of mutable object o"""
    if w == 'outpoint':
        if f == 'hash':
            o.hash = env.bytes('c', 32)
        else:
            o.n = env.int('c', 0, 0xffffffff)
    elif w == 'txin':
        if f == 'hash':
            o.prevout.hash = env.bytes('c', 32)
        elif f == 'n':
            o.prevout.n = env.int('c', 0, 0x3ffffffe)
        elif f == 'prevout':
            o.prevout = CElementsMutableOutPoint(env.bytes('c', 32), 1)
        elif f == 'script':
            o.scriptSig = CElementsScript(env.bytes('c', 2))
        elif f == 'seq':
            o.nSequence = env.int('c', 0, 0xffffffff)
        elif f == 'iss':
            o.assetIssuance = mk_issuance(issuance(env, 'c', 'explicit', 'explicit'))
        else:
            o.is_pegin = env.bool('c')
    elif w == 'txout':
        if f == 'asset':
            o.nAsset = CConfidentialAsset(b'\x01' + env.bytes('c', 32))
        elif f == 'value':
            o.nValue = CConfidentialValue(b'\x01' + env.bytes('c', 8))
        elif f == 'nonce':
            o.nNonce = CConfidentialNonce(b'\x02' + env.bytes('c', 32))
        else:
            o.scriptPubKey = CElementsScript(env.bytes('c', 2))
    elif w == 'inwit':
        if f == 'amount_proof':
            o.issuanceAmountRangeproof = env.bytes('c', 2)
        elif f == 'keys_proof':
            o.inflationKeysRangeproof = env.bytes('c', 2)
        elif f == 'stack':
            o.scriptWitness = CScriptWitness([env.bytes('c', 2)])
        else:
            o.pegin_witness = CScriptWitness([env.bytes('c', 2)])
    else:
        if f == 'surjection':
            o.surjectionproof = env.bytes('c', 1)
        else:
            o.rangeproof = env.bytes('c', 1)


def run_part(env, job):
    s, mk, enc, fields = part(env, job)
    w = job['what']
    want = enc(s)
    imm = mk(s, False)
    mut = mk(s, True)
    env.check(imm.is_immutable() and mut.is_mutable(), 'kinds')
    env.check(imm.serialize() == want and mut.serialize() == want, 'encoding')
    made = [('from-mutable', mut.to_immutable(), True), ('clone-immutable', imm.clone(), True),
            ('immutable-again', imm.to_immutable(), True),
            ('class-from-mutable', type(imm).from_instance(mut), True),
            ('mutable-copy', mut.clone(), False), ('to-mutable', mut.to_mutable(), False),
            ('mutable-from-immutable', imm.to_mutable(), False), ('imm', imm, True)]
    for nm, o, im in made:
        env.check(o.is_immutable() == im and type(o) is type(imm if im else mut), 'class-' + nm)
        env.check(o.serialize() == want, 'same-encoding-' + nm)
    f = env.choose('field', fields)
    src = env.choose('source', ['mut', 'copy', 'copy-of-immutable'])
    obj = {'mut': mut, 'copy': made[4][1], 'copy-of-immutable': made[6][1]}[src]
    change(env, w, obj, f)
    for nm, o, im in made + [('mut', mut, False)]:
        if o is not obj:
            env.check(o.serialize() == want, 'untouched-' + nm)
    # the changed object encodes what it now holds
    new = obj.to_immutable()
    env.check(new.serialize() == obj.serialize(), 'converted-after-change')
    env.check(type(imm).deserialize(want).serialize() == want, 'decoding')
    env.reach('part')


def txparts(env, wit, prefix=''):
    return tx(env, [dict(iss=('explicit', 'explicit'), script=1, pegin=False, **(dict(wit=(1, 1, (1,), (1,))) if wit else {})),
                    dict(pegin=True)],
              [dict(kinds=('commitment', 'commitment', 'commitment'), **(dict(wit=(1, 2)) if wit else {})), dict()], prefix)


def tx_change(env, o, ch):
    """change mutable transaction o"""
    if ch == 'version':
        o.nVersion = env.int('c', -2**31, 2**31 - 1)
    elif ch == 'locktime':
        o.nLockTime = env.int('c', 0, 2**32 - 1)
    elif ch == 'outpoint-hash':
        change(env, 'txin', o.vin[0], 'hash')
    elif ch == 'outpoint-n':
        change(env, 'txin', o.vin[1], 'n')
    elif ch == 'prevout':
        change(env, 'txin', o.vin[1], 'prevout')
    elif ch == 'scriptSig':
        change(env, 'txin', o.vin[0], 'script')
    elif ch == 'sequence':
        change(env, 'txin', o.vin[0], 'seq')
    elif ch == 'issuance':
        change(env, 'txin', o.vin[1], 'iss')
    elif ch == 'pegin':
        change(env, 'txin', o.vin[1], 'pegin')
    elif ch == 'vin-item':
        o.vin[0] = mk_txin(txin(env, 'c'), True)
    elif ch == 'vin-append':
        o.vin.append(mk_txin(txin(env, 'c'), True))
    elif ch == 'vin-del':
        del o.vin[0]
    elif ch == 'vin':
        o.vin = [mk_txin(txin(env, 'c'), True)]
    elif ch == 'value':
        change(env, 'txout', o.vout[0], 'value')
    elif ch == 'asset':
        change(env, 'txout', o.vout[1], 'asset')
    elif ch == 'nonce':
        change(env, 'txout', o.vout[0], 'nonce')
    elif ch == 'scriptPubKey':
        change(env, 'txout', o.vout[1], 'script')
    elif ch == 'vout-item':
        o.vout[1] = mk_txout(txout(env, 'c'), True)
    elif ch == 'vout-append':
        o.vout.append(mk_txout(txout(env, 'c'), True))
    elif ch == 'vout-del':
        o.vout.pop()
    elif ch == 'vout':
        o.vout = []
    elif ch == 'inwit-item':
        o.wit.vtxinwit[1] = mk_inwit(inwit(env, 'c', (1, 1, (1,), (1,))), True)
    elif ch == 'inwit-append':
        o.wit.vtxinwit.append(mk_inwit(inwit(env, 'c', (1, 1, (1,), (1,))), True))
    elif ch == 'inwit-script':
        change(env, 'inwit', o.wit.vtxinwit[0], 'stack')
    elif ch == 'inwit-proof':
        change(env, 'inwit', o.wit.vtxinwit[0], 'amount_proof')
    elif ch == 'inwit-kproof':
        change(env, 'inwit', o.wit.vtxinwit[1], 'keys_proof')
    elif ch == 'inwit-pegin':
        change(env, 'inwit', o.wit.vtxinwit[1], 'pegin_stack')
    elif ch == 'outwit-item':
        o.wit.vtxoutwit[0] = mk_outwit(outwit(env, 'c', (1, 1)), True)
    elif ch == 'outwit-del':
        del o.wit.vtxoutwit[0]
    elif ch == 'outwit-surjection':
        change(env, 'outwit', o.wit.vtxoutwit[0], 'surjection')
    elif ch == 'outwit-rangeproof':
        change(env, 'outwit', o.wit.vtxoutwit[1], 'rangeproof')
    elif ch == 'vtxinwit':
        o.wit.vtxinwit = []
    elif ch == 'vtxoutwit':
        o.wit.vtxoutwit = []
    else:
        o.wit = CElementsMutableTxWitness()


def run_tx(env, job):
    t = txparts(env, job['wit'])
    want = ref_tx(t)
    txid = dsha(ref_tx(t, witness=False))
    mut = mk_tx(t, True)
    imm = mk_tx(t, False)
    hold = [('given', imm), ('from-mutable', mut.to_immutable()), ('class-from-mutable', CElementsTransaction.from_tx(mut)),
            ('class-from-instance', CElementsTransaction.from_instance(mut)),
            ('built-from-parts', CElementsTransaction(mut.vin, mut.vout, mut.nLockTime, mut.nVersion, mut.wit)),
            ('clone', imm.clone())]
    held_wit = mut.wit.to_immutable()
    built_wit = CElementsTxWitness(mut.wit.vtxinwit, mut.wit.vtxoutwit)
    wit_enc = held_wit.serialize()
    copies = {'copy': mut.clone(), 'second-copy': mut.to_mutable(), 'from-immutable': imm.to_mutable(),
              'class': CElementsMutableTransaction.from_tx(imm),
              'built': CElementsMutableTransaction(imm.vin, imm.vout, imm.nLockTime, imm.nVersion, imm.wit),
              'built-from-mutable': CElementsMutableTransaction(mut.vin, mut.vout, mut.nLockTime, mut.nVersion, mut.wit)}
    for nm, o in hold + list(copies.items()):
        env.check(o.serialize() == want, 'same-encoding-' + nm)
    for nm, o in hold:
        env.check(o.is_immutable(), 'immutable-' + nm)
        env.check(o.GetTxid() == txid and o.GetHash() == dsha(want), 'id-' + nm)
    for nm, o in copies.items():
        env.check(o.is_mutable() and isinstance(o, CElementsMutableTransaction) and o is not mut, 'mutable-' + nm)
    # pieces taken from immutable transactions are immutable, from mutable ones mutable
    for o in (hold[1][1], hold[4][1]):
        for p in list(o.vin) + list(o.vout) + [o.vin[0].prevout, o.wit] + list(o.wit.vtxinwit) + list(o.wit.vtxoutwit):
            env.check(p.is_immutable(), 'immutable-part')
        env.check(isinstance(o.vin, tuple) and isinstance(o.vout, tuple) and isinstance(o.wit.vtxinwit, tuple)
                  and isinstance(o.wit.vtxoutwit, tuple), 'immutable-sequences')
    for o in copies.values():
        for p in list(o.vin) + list(o.vout) + [o.vin[0].prevout, o.wit] + list(o.wit.vtxinwit) + list(o.wit.vtxoutwit):
            env.check(p.is_mutable(), 'mutable-part')
    src = env.choose('source', ['mut'] + list(copies))
    obj = mut if src == 'mut' else copies[src]
    tx_change(env, obj, job['change'])
    for nm, o in hold:
        env.check(o.serialize() == want, 'untouched-' + nm)
        env.check(o.GetTxid() == txid and o.GetHash() == dsha(want), 'untouched-id-' + nm)
    env.check(held_wit.serialize() == wit_enc and built_wit.serialize() == wit_enc, 'untouched-witness')
    for nm, o in list(copies.items()) + [('mut', mut)]:
        if o is not obj:
            env.check(o.serialize() == want, 'untouched-copy-' + nm)
    env.reach('tx')


def run_wit(env, job):
    ins = [inwit(env, 'i', (1, 1, (1,), (1,))) for dummy in range(job['n'])]
    outs = [outwit(env, 'o', (1, 2)) for dummy in range(job['m'])]
    given = env.choose('given', ['mutable', 'immutable'])
    ri = [mk_inwit(w, given == 'mutable') for w in ins]
    ro = [mk_outwit(w, given == 'mutable') for w in outs]
    ienc, oenc = [ref_inwit(w) for w in ins], [ref_outwit(w) for w in outs]
    mut = CElementsMutableTxWitness(ri, ro)
    imm = CElementsTxWitness(ri, ro)
    hold = [('built', imm), ('from-mutable', mut.to_immutable()), ('class', CElementsTxWitness.from_instance(mut)),
            ('clone', imm.clone()), ('from-mutable-copy', mut.clone().to_immutable()),
            ('parsed', CElementsTxWitness.deserialize(mut.serialize(), num_inputs=job['n'], num_outputs=job['m'])
             if job['n'] + job['m'] else imm)]
    copies = [('mut', mut), ('copy', mut.clone()), ('again', mut.to_mutable()), ('from-immutable', imm.to_mutable()),
              ('built-from-immutable', CElementsMutableTxWitness(imm.vtxinwit, imm.vtxoutwit)),
              ('built-from-mutable', CElementsMutableTxWitness(mut.vtxinwit, mut.vtxoutwit))]

    def same(o):
        return same_records(o.vtxinwit, ienc) & same_records(o.vtxoutwit, oenc)

    def frozen(nm, o):
        env.check(o.is_immutable() and isinstance(o, CElementsTxWitness) and not o.is_mutable(), 'immutable-' + nm)
        env.check(isinstance(o.vtxinwit, tuple) and isinstance(o.vtxoutwit, tuple), 'immutable-sequences-' + nm)
        for p in list(o.vtxinwit) + list(o.vtxoutwit):
            env.check(p.is_immutable(), 'immutable-record-' + nm)
    for nm, o in hold:
        frozen(nm, o)
        env.check(same(o), 'records-' + nm)
    for nm, o in copies:
        env.check(o.is_mutable() and isinstance(o.vtxinwit, list) and isinstance(o.vtxoutwit, list), 'mutable-' + nm)
        for p in list(o.vtxinwit) + list(o.vtxoutwit):
            env.check(p.is_mutable(), 'mutable-record-' + nm)
        env.check(same(o), 'records-' + nm)
    # the same for the witness of a transaction
    t = Spec(version=2, locktime=0, vin=[txin(env, 'ti') for dummy in range(max(1, job['n']))],
             vout=[txout(env, 'to', 'explicit', 'explicit', 'null') for dummy in range(max(1, job['m']))])
    for nm, w in (('mutable', mut), ('immutable', imm)):
        o = CElementsTransaction([mk_txin(i, True) for i in t.vin], [mk_txout(o, True) for o in t.vout], 0, 2, w)
        frozen('transaction-of-' + nm, o.wit)
        env.check(same(o.wit), 'records-transaction-of-' + nm)
    if job['n'] + job['m']:
        nm, obj = env.choose('source', copies)
        k = env.choose('what', ['append', 'clear', 'record'])
        recs = obj.vtxinwit if job['n'] and (not job['m'] or env.choose('side', [True, False])) else obj.vtxoutwit
        if k == 'append':
            recs.append(recs[0])
        elif k == 'clear':
            del recs[:]
        elif recs is obj.vtxinwit:
            change(env, 'inwit', recs[-1], env.choose('field', ['stack', 'pegin_stack', 'keys_proof']))
        else:
            change(env, 'outwit', recs[-1], 'surjection')
        for nm2, o in hold + copies:
            if o is not obj:
                env.check(same(o), 'untouched-' + nm2)
    env.reach('wit')


def same_records(recs, encs):
    if len(recs) != len(encs):
        return False
    r = True
    for a, b in zip(recs, encs):
        r = r & (a.serialize() == b)
    return r


def run_ba(env, job):
    w = job['what']
    pos = 0
    if w in ('value', 'asset', 'nonce'):
        cls, n = {'value': (CConfidentialValue, 9), 'asset': (CConfidentialAsset, 33), 'nonce': (CConfidentialNonce, 33)}[w]
        d = env.bytes('data', env.choose('size', sorted({n, 33})))
        arrs = [bytearray(d)]
        o = cls(arrs[0])
        enc = d
    elif w == 'uint':
        d = env.bytes('data', 32)
        arrs = [bytearray(d)]
        o = Uint256(arrs[0])
        enc = d
    elif w == 'inwit':
        a, b = env.bytes('a', 2), env.bytes('b', 3)
        arrs = [bytearray(a), bytearray(b)]
        o = CElementsTxInWitness(CScriptWitness([]), arrs[0], arrs[1])
        enc = b'\x02' + a + b'\x03' + b + b'\0\0'
    elif w == 'outwit':
        a, b = env.bytes('a', 2), env.bytes('b', 3)
        arrs = [bytearray(a), bytearray(b)]
        o = CElementsTxOutWitness(arrs[0], arrs[1])
        enc = b'\x02' + a + b'\x03' + b
    else:
        a = env.bytes('a', 3)
        arrs = [bytearray(a)]
        o = CElementsTxOut(CConfidentialValue(), CElementsScript(arrs[0]))
        enc = b'\0\0\0\x03' + a
    env.check(o.serialize() == enc, 'encoding')
    h = dsha(enc)
    k = env.choose('which', list(range(len(arrs))))
    pos = env.choose('pos', [0, len(arrs[k]) - 1])
    arrs[k][pos] = env.int('new', 0, 255)
    env.check(o.serialize() == enc, 'untouched-by-bytearray')
    env.check(o.GetHash() == h, 'hash-untouched-by-bytearray')
    arrs[k].extend(b'xyz')
    env.check(o.serialize() == enc, 'untouched-by-bytearray-growth')
    env.reach('ba')


def refused(env, o, names):
    before = o.serialize()
    for f in names:
        old = getattr(o, f)
        try:
            setattr(o, f, old)
            env.fail('assignment-accepted ' + f)
        except AttributeError:
            pass
        try:
            delattr(o, f)
            env.fail('deletion-accepted ' + f)
        except AttributeError:
            pass
    try:
        o.something_new = 1
        env.fail('new attribute accepted')
    except AttributeError:
        pass
    env.check(o.serialize() == before, 'refused-assignment-changes-nothing')


def run_set(env, job):
    t = txparts(env, True)
    o = mk_tx(t)
    refused(env, o, ['nVersion', 'vin', 'vout', 'nLockTime', 'wit'])
    refused(env, o.vin[0], ['prevout', 'scriptSig', 'nSequence', 'assetIssuance', 'is_pegin'])
    refused(env, o.vin[0].prevout, ['hash', 'n'])
    refused(env, o.vin[0].assetIssuance, ['assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys'])
    refused(env, o.vout[0], ['nValue', 'scriptPubKey', 'nAsset', 'nNonce'])
    refused(env, o.vout[0].nValue, ['commitment'])
    refused(env, o.vout[0].nAsset, ['commitment'])
    refused(env, o.vout[0].nNonce, ['commitment'])
    refused(env, o.wit, ['vtxinwit', 'vtxoutwit'])
    refused(env, o.wit.vtxinwit[0], ['scriptWitness', 'issuanceAmountRangeproof', 'inflationKeysRangeproof',
                                     'pegin_witness'])
    refused(env, o.wit.vtxoutwit[0], ['surjectionproof', 'rangeproof'])
    # shared pieces of a mutable transaction are immutable too
    m = mk_tx(t, True)
    refused(env, m.vin[0].assetIssuance, ['assetBlindingNonce', 'assetEntropy', 'nAmount', 'nInflationKeys'])
    refused(env, m.vout[0].nValue, ['commitment'])
    env.reach('set')


def run(env, job):
    {'part': run_part, 'tx': run_tx, 'ba': run_ba, 'wit': run_wit, 'set': run_set}[job['op']](env, job)
