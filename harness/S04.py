"""S04: transactions encode to the consensus format and parse back"""
from io import BytesIO
from harness.lib import (CElementsTransaction, CElementsMutableTransaction, mk_tx, tx, ref_tx, same_tx, wit_null, Spec)
from harness.txshapes import shapes

BOUNDS = ('transactions with 0..2 inputs and 0..2 outputs (thorough 0..3) in the shapes of harness/txshapes.py (issuance '
          'kinds, peg-in, coinbase, confidential kinds, witness parts), every version, lock time, hash, index, sequence, '
          'script byte, commitment and proof byte; 253 minimal inputs / outputs for the long count; both mutability forms; '
          'witness vectors full, or left out when all their records are null')
ASSUMPTIONS = []


def jobs(tier):
    out = []
    for name, ins, outs in shapes(tier):
        for m in (False, True):
            out.append({'name': 'enc-%s-%s' % (name, 'mut' if m else 'imm'), 'op': 'enc', 'ins': ins, 'outs': outs,
                        'mut': m, 'reach': ['ok']})
    out.append({'name': 'many-inputs', 'op': 'many', 'nin': 253, 'nout': 0, 'reach': ['ok']})
    out.append({'name': 'many-outputs', 'op': 'many', 'nin': 0, 'nout': 253, 'reach': ['ok']})
    return out


def run(env, job):
    if job['op'] == 'many':
        t = tx(env, [dict(pegin=False)] * min(2, job['nin']), [dict(kinds=('null', 'null', 'null'))] * min(2, job['nout']))
        for a, b in ((t.vin, t.inwit), (t.vout, t.outwit)):
            while a and len(a) < 253:
                a.append(a[0])
                b.append(b[0])
        vectors = ['both']
    else:
        t = tx(env, job['ins'], job['outs'])
        vectors = ['both']
        null_in = all(len(w.amount_proof) + len(w.keys_proof) + len(w.stack) + len(w.pegin_stack) == 0 for w in t.inwit)
        null_out = all(len(w.surjection) + len(w.rangeproof) == 0 for w in t.outwit)
        if null_in:
            vectors.append('out')
        if null_out:
            vectors.append('in')
        if null_in and null_out:
            vectors.append('none')
    want = ref_tx(t)
    want0 = ref_tx(t, witness=False)
    for v in vectors:
        o = mk_tx(t, job.get('mut', False), v)
        env.check(o.serialize() == want, 'encoding-' + v)
        env.check(o.serialize(include_witness=False) == want0, 'encoding-without-witness-' + v)
        env.check(o.has_witness() == (not wit_null(t)), 'has-witness')
    for cls in (CElementsTransaction, CElementsMutableTransaction):
        r = cls.deserialize(want)
        env.check(isinstance(r, cls), 'class')
        env.check(same_tx(r, t), 'decoded-fields')
        env.check(r.serialize() == want, 're-encoding')
        f = BytesIO(want + b'\x00\xff')
        r = cls.stream_deserialize(f)
        env.check(f.tell() == len(want), 'consumed-length')
        r = cls.deserialize(want0)
        env.check(same_tx(r, t, witness=False) if wit_null(t) else
                  same_tx(r, Spec(version=t.version, locktime=t.locktime, vin=t.vin, vout=t.vout, inwit=[], outwit=[])),
                  'decoded-fields-without-witness')
        env.check(r.serialize() == want0, 're-encoding-without-witness')
    env.reach('ok')
