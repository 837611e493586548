"""reference signature messages, written from the Elements consensus rules"""
import hashlib
from harness.lib import (dsha, ref_var, ref_issuance, ref_txout, issuance_present, ref_field, ref_outwit, ref_varint)

ZERO = bytes(32)


def sha(b):
    return hashlib.sha256(b).digest()


def tagged(tag, b):
    t = hashlib.sha256(tag).digest()
    return hashlib.sha256(t + t + b).digest()


def u32(n):
    return n.to_bytes(4, 'little')


def i32(n):
    return n.to_bytes(4, 'little', signed=True)


def cat(parts):
    r = b''
    for p in parts:
        r = r + p
    return r


def prevout(i):
    return i.hash + u32(i.n)


def iss_or_zero(i):
    return ref_issuance(i.iss) if issuance_present(i.iss) else b'\x00'


def msg_v0(t, idx, ht, script, amount):
    """ht: concrete or symbolic int; its mode bits must be decided on this path"""
    acp = (ht & 0x80) != 0
    mode = ht & 0x1f
    prevouts = sequences = issuances = outputs = ZERO
    if not acp:
        prevouts = dsha(cat([prevout(i) for i in t.vin]))
        issuances = dsha(cat([iss_or_zero(i) for i in t.vin]))
        if mode != 3 and mode != 2:
            sequences = dsha(cat([u32(i.seq) for i in t.vin]))
    if mode != 3 and mode != 2:
        outputs = dsha(cat([ref_txout(o) for o in t.vout]))
    elif mode == 3 and idx < len(t.vout):
        outputs = dsha(ref_txout(t.vout[idx]))
    i = t.vin[idx]
    m = i32(t.version) + prevouts + sequences + issuances + prevout(i) + ref_var(script) + ref_field(amount) + u32(i.seq)
    if issuance_present(i.iss):
        m = m + ref_issuance(i.iss)
    return m + outputs + u32(t.locktime) + i32(ht)


def legacy_in(i, script, seq):
    r = i.hash + u32(i.n) + ref_var(script) + u32(seq)
    if issuance_present(i.iss):
        if i.n != 0xffffffff:
            r = r + ref_issuance(i.iss)
    return r


def msg_legacy(t, idx, ht, script):
    """None: the number one is the hash"""
    if idx >= len(t.vin):
        return None
    acp = (ht & 0x80) != 0
    mode = ht & 0x1f
    none, single = mode == 2, mode == 3
    if single and idx >= len(t.vout):
        return None
    ins = []
    for k, i in enumerate(t.vin):
        if k == idx:
            ins.append(legacy_in(i, script, i.seq))
        elif not acp:
            ins.append(legacy_in(i, b'', 0 if none or single else i.seq))
    if none:
        outs = []
    elif single:
        outs = [b'\x00\x00\x00\x00'] * idx + [ref_txout(t.vout[idx])]
    else:
        outs = [ref_txout(o) for o in t.vout]
    return (i32(t.version) + ref_varint(len(ins)) + cat(ins) + ref_varint(len(outs)) + cat(outs) + u32(t.locktime) + i32(ht))


def flag_byte(i):
    f = 0x80 if issuance_present(i.iss) else 0
    return bytes([f | 0x40 if i.pegin else f])


def iss_proofs(w):
    return ref_var(w.amount_proof) + ref_var(w.keys_proof)


def msg_schnorr(t, idx, spent, ht, annex=None, leaf=None, codesep=-1):
    """ht None: default; leaf None: key path"""
    b = 0 if ht is None else ht
    acp = (b & 0x80) != 0
    out = 1 if ht is None else b & 0x7f
    m = bytes([b]) + i32(t.version) + u32(t.locktime)
    if not acp:
        m = m + sha(cat([flag_byte(i) for i in t.vin]))
        m = m + sha(cat([prevout(i) for i in t.vin]))
        m = m + sha(cat([ref_field(s.asset) + ref_field(s.value) for s in spent]))
        m = m + sha(cat([ref_var(s.script) for s in spent]))
        m = m + sha(cat([u32(i.seq) for i in t.vin]))
        m = m + sha(cat([iss_or_zero(i) for i in t.vin]))
        m = m + sha(cat([iss_proofs(w) for w in t.inwit]))
    if out == 1:
        m = m + sha(cat([ref_txout(o) for o in t.vout])) + sha(cat([ref_outwit(w) for w in t.outwit]))
    m = m + bytes([(2 if leaf is not None else 0) + (1 if annex is not None else 0)])
    if acp:
        i, s = t.vin[idx], spent[idx]
        m = (m + flag_byte(i) + prevout(i) + ref_field(s.asset) + ref_field(s.value) + ref_var(s.script) + u32(i.seq)
             + iss_or_zero(i))
        if issuance_present(i.iss):
            m = m + sha(iss_proofs(t.inwit[idx]))
    else:
        m = m + u32(idx)
    if annex is not None:
        m = m + annex
    if out == 3:
        m = m + sha(ref_txout(t.vout[idx])) + sha(ref_outwit(t.outwit[idx]))
    if leaf is not None:
        m = m + leaf + b'\x00' + i32(codesep)
    return m


def schnorr_hash(genesis, m):
    return tagged(b'TapSighash/elements', genesis + genesis + m)


def leaf_hash(script):
    return tagged(b'TapLeaf/elements', b'\xc4' + ref_var(script))
