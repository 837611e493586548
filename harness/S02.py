"""S02: transaction input wire format with issuance and peg-in flags"""
from io import BytesIO
from harness.lib import (CElementsTxIn, ref_txin, ref_var, mk_txin, txin, issuance_present, same_txin, Spec,
                         null_issuance)

KINDS = ('null', 'explicit', 'commitment')
BOUNDS = ('encoding: every 32-byte hash, 32-bit index, 32-bit sequence, peg-in flag; scripts of length 0..3, 75 and '
          '253 (thorough 0..20, 75, 252..254); issuance absent or amount/keys each null, explicit or committed; immutable '
          'and mutable form. decoding: every buffer of length 0..48 and of the lengths around each issuance size '
          '(thorough: every length 0..190)')
ASSUMPTIONS = []


def jobs(tier):
    out = []
    scripts = [0, 1, 2, 3, 75, 253] if tier == 'quick' else list(range(21)) + [75, 252, 253, 254]
    for s in scripts:
        for a in (None,) + KINDS:
            for k in KINDS if a else (None,):
                for m in (False, True):
                    out.append({'name': 'encode-script%d-%s-%s-%s' % (s, a, k, 'mut' if m else 'imm'), 'op': 'encode',
                                'script': s, 'iss': (a, k) if a else None, 'mut': m,
                                'reach': ['encoded', 'refused', 'coinbase']})
    lens = list(range(0, 49)) + [105, 106, 107, 108, 115, 116, 117, 123, 124, 125, 138, 139, 140, 147, 148, 149,
                                 171, 172, 173, 174] if tier == 'quick' else list(range(191))
    for n in lens:
        out.append({'name': 'decode-%d' % n, 'op': 'decode', 'n': n, 'reach': ['decoded'] if n >= 41 else []})
    return out


def run(env, job):
    if job['op'] == 'encode':
        i = txin(env, 'in', script=job['script'], iss=job['iss'], n_hi=0xffffffff)
        o = mk_txin(i, job['mut'])
        iss = issuance_present(i.iss)
        coinbase = env.split(i.n == 0xffffffff)
        if coinbase:
            want = ref_txin(i)
            env.reach('coinbase')
        else:
            bad = (i.n & 0xc0000000) != 0
            # the one index whose flagged form is the coinbase marker itself
            bad = bad | ((i.n == 0x3fffffff) & iss & i.pegin)
            bad = env.split(bad)
            want = None if bad else ref_txin(i)
        try:
            data = o.serialize()
        except Exception:
            env.check(want is None, 'encodable-input-refused')
            env.reach('refused')
            return
        env.check(want is not None, 'unencodable-index-encoded')
        env.check(data == want, 'encoding')
        env.reach('encoded')
        f = BytesIO(data + b'\xaa')
        r = CElementsTxIn.stream_deserialize(f)
        env.check(f.tell() == len(data), 'consumed-length')
        if coinbase:
            i = Spec(hash=i.hash, n=i.n, script=i.script, seq=i.seq, iss=null_issuance(), pegin=False)
        elif not iss:
            # blinding nonce and entropy of an absent issuance are not part of the encoding
            i = Spec(hash=i.hash, n=i.n, script=i.script, seq=i.seq, iss=null_issuance(), pegin=i.pegin)
        env.check(same_txin(r, i), 'decoded-fields')
        env.check(r.serialize() == data, 're-encoding')
        return
    data = env.bytes('data', job['n'])
    f = BytesIO(data)
    try:
        r = CElementsTxIn.stream_deserialize(f)
    except Exception:
        return
    used = f.tell()
    env.reach('decoded')
    env.check(used >= 41, 'truncated-input-accepted')
    idx = int.from_bytes(data[32:36], 'little')
    env.check(r.prevout.hash == data[:32], 'decoded-hash')
    if idx == 0xffffffff:
        env.check(r.prevout.n == 0xffffffff, 'coinbase-index')
        env.check(r.assetIssuance.is_null(), 'coinbase-issuance')
        env.check(not r.is_pegin, 'coinbase-pegin')
    else:
        env.check(r.prevout.n == idx & 0x3fffffff, 'masked-index')
        env.check(r.is_pegin == (idx & 0x40000000 != 0), 'pegin-flag')
        env.check(r.assetIssuance.is_null() == (idx & 0x80000000 == 0), 'issuance-flag')
    env.check(r.serialize() == data[:used], 're-encoding-of-arbitrary-input')
