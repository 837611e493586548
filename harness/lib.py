"""shared pieces of the harnesses: symbolic transaction parts and an
independent reference encoder of the Elements wire format"""
from elementstx.core import (
    CElementsTransaction, CElementsMutableTransaction, CElementsTxIn, CElementsMutableTxIn,
    CElementsTxOut, CElementsMutableTxOut, CElementsOutPoint, CElementsMutableOutPoint,
    CElementsTxInWitness, CElementsTxOutWitness, CElementsTxWitness,
    CElementsMutableTxInWitness, CElementsMutableTxOutWitness, CElementsMutableTxWitness,
    CAssetIssuance, CConfidentialAsset, CConfidentialValue, CConfidentialNonce,
)
from elementstx.core.script import CElementsScript
from bitcointx.core import Uint256
from bitcointx.core.script import CScriptWitness, CScript
from bitcointx import select_chain_params
import hashlib

select_chain_params('elements')

FIELD = {'asset': (33, (10, 11)), 'value': (9, (8, 9)), 'nonce': (33, (2, 3))}


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


class Spec:
    """plain attribute bag"""
    def __init__(self, **kw):
        self.__dict__.update(kw)


# ---------------------------------------------------------------- reference encoding
def ref_varint(n):
    if n < 0xfd:
        return bytes([n])
    if n <= 0xffff:
        return b'\xfd' + n.to_bytes(2, 'little')
    if n <= 0xffffffff:
        return b'\xfe' + n.to_bytes(4, 'little')
    return b'\xff' + n.to_bytes(8, 'little')


def ref_var(b):
    return ref_varint(len(b)) + b


def ref_stack(items):
    r = ref_varint(len(items))
    for i in items:
        r = r + ref_var(i)
    return r


def ref_field(d):
    return d if len(d) else b'\x00'


def ref_issuance(s):
    return s.blinding_nonce + s.entropy + ref_field(s.amount) + ref_field(s.keys)


def issuance_present(s):
    return len(s.amount) > 0 or len(s.keys) > 0


def ref_txin(i, for_sighash=False):
    """i.n is assumed to be encodable"""
    if i.n == 0xffffffff:
        return i.hash + b'\xff\xff\xff\xff' + ref_var(i.script) + i.seq.to_bytes(4, 'little')
    iss = issuance_present(i.iss)
    idx = i.n
    if not for_sighash:
        if iss:
            idx = idx | 0x80000000
        idx = idx | (0x40000000 if i.pegin else 0)
    r = i.hash + idx.to_bytes(4, 'little') + ref_var(i.script) + i.seq.to_bytes(4, 'little')
    if iss:
        r = r + ref_issuance(i.iss)
    return r


def ref_txout(o):
    return ref_field(o.asset) + ref_field(o.value) + ref_field(o.nonce) + ref_var(o.script)


def ref_inwit(w):
    return ref_var(w.amount_proof) + ref_var(w.keys_proof) + ref_stack(w.stack) + ref_stack(w.pegin_stack)


def ref_outwit(w):
    return ref_var(w.surjection) + ref_var(w.rangeproof)


def inwit_null(w):
    return len(w.amount_proof) == 0 and len(w.keys_proof) == 0 and len(w.stack) == 0 and len(w.pegin_stack) == 0


def outwit_null(w):
    return len(w.surjection) == 0 and len(w.rangeproof) == 0


def wit_null(t):
    for w in t.inwit:
        if not inwit_null(w):
            return False
    for w in t.outwit:
        if not outwit_null(w):
            return False
    return True


def ref_tx(t, witness=True):
    r = t.version.to_bytes(4, 'little', signed=True)
    flag = witness and not wit_null(t)
    r = r + (b'\x01' if flag else b'\x00')
    r = r + ref_varint(len(t.vin))
    for i in t.vin:
        r = r + ref_txin(i)
    r = r + ref_varint(len(t.vout))
    for o in t.vout:
        r = r + ref_txout(o)
    r = r + t.locktime.to_bytes(4, 'little')
    if flag:
        for w in t.inwit:
            r = r + ref_inwit(w)
        for w in t.outwit:
            r = r + ref_outwit(w)
    return r


# ---------------------------------------------------------------- symbolic parts
def field(env, name, what, kind):
    """valid confidential field data of the given kind; '*' = any kind (forks)"""
    ex, pref = FIELD[what]
    if kind == '*':
        kind = env.choose(name + '-kind', ['null', 'explicit', 'commitment'])
    if kind == 'null':
        return b''
    if kind == 'explicit':
        return b'\x01' + env.bytes(name, ex - 1)
    low = env.bool(name + '-prefix')
    p = pref[1] if low else pref[0]
    return bytes([p]) + env.bytes(name, 32)


def issuance(env, name, amount, keys, present=True):
    return Spec(blinding_nonce=env.bytes(name + '-bnonce', 32), entropy=env.bytes(name + '-entropy', 32),
                amount=field(env, name + '-amount', 'value', amount),
                keys=field(env, name + '-keys', 'value', keys))


def null_issuance():
    return Spec(blinding_nonce=bytes(32), entropy=bytes(32), amount=b'', keys=b'')


def txin(env, name, script=0, iss=None, pegin=None, n_lo=0, n_hi=0x3fffffff):
    """iss: None or (amount kind, keys kind)"""
    return Spec(hash=env.bytes(name + '-hash', 32), n=env.int(name + '-n', n_lo, n_hi),
                script=env.bytes(name + '-script', script), seq=env.int(name + '-seq', 0, 0xffffffff),
                iss=issuance(env, name + '-iss', *iss) if iss else null_issuance(),
                pegin=env.bool(name + '-pegin') if pegin is None else pegin)


def txout(env, name, asset='explicit', value='explicit', nonce='null', script=1):
    return Spec(asset=field(env, name + '-asset', 'asset', asset), value=field(env, name + '-value', 'value', value),
                nonce=field(env, name + '-nonce', 'nonce', nonce), script=env.bytes(name + '-script', script))


def inwit(env, name, shape):
    """shape: (amount proof len, keys proof len, [stack item lens], [pegin stack item lens])"""
    a, k, s, p = shape
    return Spec(amount_proof=env.bytes(name + '-aproof', a), keys_proof=env.bytes(name + '-kproof', k),
                stack=[env.bytes(name + '-w', x) for x in s], pegin_stack=[env.bytes(name + '-p', x) for x in p])


def outwit(env, name, shape):
    s, r = shape
    return Spec(surjection=env.bytes(name + '-sproof', s), rangeproof=env.bytes(name + '-rproof', r))


NOWIT = (0, 0, (), ())
W_FULL_SHAPE = (2, 1, (1, 0), (2,))


# ---------------------------------------------------------------- real objects
def mk_issuance(s):
    return CAssetIssuance(Uint256(s.blinding_nonce), Uint256(s.entropy), CConfidentialValue(s.amount),
                          CConfidentialValue(s.keys))


def mk_txin(i, mutable=False):
    cls = CElementsMutableTxIn if mutable else CElementsTxIn
    op = (CElementsMutableOutPoint if mutable else CElementsOutPoint)(i.hash, i.n)
    return cls(op, CElementsScript(i.script), i.seq, mk_issuance(i.iss), i.pegin)


def mk_txout(o, mutable=False):
    cls = CElementsMutableTxOut if mutable else CElementsTxOut
    return cls(CConfidentialValue(o.value), CElementsScript(o.script), CConfidentialAsset(o.asset),
               CConfidentialNonce(o.nonce))


def mk_inwit(w, mutable=False):
    cls = CElementsMutableTxInWitness if mutable else CElementsTxInWitness
    return cls(CScriptWitness(w.stack), w.amount_proof, w.keys_proof, CScriptWitness(w.pegin_stack))


def mk_outwit(w, mutable=False):
    cls = CElementsMutableTxOutWitness if mutable else CElementsTxOutWitness
    return cls(w.surjection, w.rangeproof)


def mk_tx(t, mutable=False, vectors='both'):
    """vectors: which witness vectors are filled in; a vector left out stands for null records"""
    cls = CElementsMutableTransaction if mutable else CElementsTransaction
    wcls = CElementsMutableTxWitness if mutable else CElementsTxWitness
    wit = wcls([mk_inwit(w, mutable) for w in t.inwit] if vectors in ('both', 'in') else [],
               [mk_outwit(w, mutable) for w in t.outwit] if vectors in ('both', 'out') else [])
    return cls([mk_txin(i, mutable) for i in t.vin], [mk_txout(o, mutable) for o in t.vout], t.locktime, t.version,
               wit)


def tx(env, ins, outs, prefix='', pegin=None):
    """ins: list of dict(iss=, script=, wit=, coinbase=, pegin=); outs: list of dict(kinds=(asset, value, nonce), script=, wit=)"""
    t = Spec(version=env.int(prefix + 'version', -2**31, 2**31 - 1), locktime=env.int(prefix + 'locktime', 0, 2**32 - 1),
             vin=[], vout=[], inwit=[], outwit=[])
    for k, d in enumerate(ins):
        nm = '%sin%d' % (prefix, k)
        if d.get('coinbase'):
            i = txin(env, nm, script=d.get('script', 0), iss=d.get('iss'), pegin=d.get('pegin', pegin), n_lo=0xffffffff,
                     n_hi=0xffffffff)
        else:
            i = txin(env, nm, script=d.get('script', 0), iss=d.get('iss'), pegin=d.get('pegin', pegin),
                     n_hi=0x3ffffffe if d.get('iss') else 0x3fffffff)
        t.vin.append(i)
        t.inwit.append(inwit(env, nm, d.get('wit', NOWIT)))
    for k, d in enumerate(outs):
        nm = '%sout%d' % (prefix, k)
        a, v, n = d.get('kinds', ('explicit', 'explicit', 'null'))
        t.vout.append(txout(env, nm, a, v, n, d.get('script', 1)))
        t.outwit.append(outwit(env, nm, d.get('wit', (0, 0))))
    return t


def all_true(conds):
    r = True
    for c in conds:
        r = r & c
    return r


def norm_in(i):
    """what the encoding keeps of an input"""
    if i.n == 0xffffffff:
        return Spec(hash=i.hash, n=i.n, script=i.script, seq=i.seq, iss=null_issuance(), pegin=False)
    if not issuance_present(i.iss):
        return Spec(hash=i.hash, n=i.n, script=i.script, seq=i.seq, iss=null_issuance(), pegin=i.pegin)
    return i


def same_tx(a, t, witness=True, norm=norm_in):
    if len(a.vin) != len(t.vin) or len(a.vout) != len(t.vout):
        return False
    r = a.nVersion == t.version
    r = r & (a.nLockTime == t.locktime)
    for x, i in zip(a.vin, t.vin):
        r = r & same_txin(x, norm(i))
    for x, o in zip(a.vout, t.vout):
        r = r & same_txout(x, o)
    if witness and not wit_null(t):
        if len(a.wit.vtxinwit) != len(t.vin) or len(a.wit.vtxoutwit) != len(t.vout):
            return False
        for x, w in zip(a.wit.vtxinwit, t.inwit):
            r = r & same_inwit(x, w)
        for x, w in zip(a.wit.vtxoutwit, t.outwit):
            r = r & same_outwit(x, w)
    else:
        if not a.wit.is_null():
            return False
    return r


def same_issuance(a, s):
    return (a.assetBlindingNonce.data == s.blinding_nonce and a.assetEntropy.data == s.entropy
            and a.nAmount.commitment == s.amount and a.nInflationKeys.commitment == s.keys)


def same_txin(a, i):
    r = a.prevout.hash == i.hash and a.prevout.n == i.n
    r = r & (a.scriptSig == i.script)
    r = r & (a.nSequence == i.seq)
    r = r & (a.is_pegin == i.pegin)
    return r & same_issuance(a.assetIssuance, i.iss)


def same_txout(a, o):
    r = a.nValue.commitment == o.value
    r = r & (a.nAsset.commitment == o.asset)
    r = r & (a.nNonce.commitment == o.nonce)
    return r & (a.scriptPubKey == o.script)


def same_list(a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        r = r & (x == y)
    return r


def same_inwit(a, w):
    r = a.issuanceAmountRangeproof == w.amount_proof
    r = r & (a.inflationKeysRangeproof == w.keys_proof)
    r = r & same_list(list(a.scriptWitness.stack), w.stack)
    return r & same_list(list(a.pegin_witness.stack), w.pegin_stack)


def same_outwit(a, w):
    return (a.surjectionproof == w.surjection) & (a.rangeproof == w.rangeproof)
