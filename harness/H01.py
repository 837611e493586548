"""H01: segwit v0 signature hash"""
from harness.lib import mk_tx, tx, field, dsha, CElementsScript, CConfidentialValue, wit_null
from harness.refhash import msg_v0
from harness.sigshapes import sig_shapes, HIST_INS, HIST_OUTS, CHANGES, apply_change
from elementstx.core.script import RawElementsSignatureHash
from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGHASH_Type

BOUNDS = ('transactions of 1..2 (thorough 1..4) inputs and 0..3 outputs with all field contents, every input index in range, '
          'the six supported hash types through sighash() and every 32-bit hash type through raw_sighash(), script codes of '
          '0..2 and 253 bytes, amounts null, explicit and committed, mutable and immutable transactions; two inputs of one transaction hashed, then one of %d changes of the '
          'object (or another object), then hashed again' % len(CHANGES))
ASSUMPTIONS = ['equality of double SHA-256 values is decided as equality of the hashed bytes; a difference of digests that '
               'agree although the messages differ is not considered']

TYPES = [1, 2, 3, 0x81, 0x82, 0x83]


def jobs(tier):
    out = []
    for name, ins, outs in sig_shapes(tier):
        for idx in range(len(ins)):
            for ht in TYPES + ['any']:
                out.append({'name': '%s-in%d-%s' % (name, idx, ht), 'ins': ins, 'outs': outs, 'idx': idx, 'ht': ht,
                            'reach': ['hash']})
    for ht in TYPES:
        for c in CHANGES:
            out.append({'name': 'again-%s-%s' % (ht, c), 'op': 'again', 'ht': ht, 'change': c, 'reach': ['again']})
    return out


def again(env, job):
    """hashing an object again after a change gives what a new object with that content gives"""
    t = tx(env, HIST_INS, HIST_OUTS)
    o = mk_tx(t, True)
    ht, idx = job['ht'], env.choose('idx', [0, 1])
    sc, amount = env.bytes('code', 1), field(env, 'amount', 'value', 'explicit')

    def h(o, k, s, a):
        return CElementsScript(s).sighash(o, k, ht, amount=CConfidentialValue(a), sigversion=SIGVERSION_WITNESS_V0)
    env.check(h(o, idx, sc, amount) == dsha(msg_v0(t, idx, ht, sc, amount)), 'first')
    other = TYPES[(TYPES.index(ht) + 1 + env.choose('other', [0, 2])) % 6]
    env.check(CElementsScript(sc).sighash(o, 1 - idx, other, amount=CConfidentialValue(amount), sigversion=SIGVERSION_WITNESS_V0)
              == dsha(msg_v0(t, 1 - idx, other, sc, amount)), 'other-input')
    u, o = apply_change(env, t, o, job['change'])
    k = env.choose('idx2', [0, 1])
    if env.choose('same-code', [True, False]):
        sc2, amount2 = sc, amount
    else:
        sc2, amount2 = env.bytes('code2', 1), field(env, 'amount2', 'value', 'explicit')
    env.check(h(o, k, sc2, amount2) == dsha(msg_v0(u, k, ht, sc2, amount2)), 'after-change')
    env.reach('again')


def run(env, job):
    if job.get('op') == 'again':
        again(env, job)
        return
    t = tx(env, job['ins'], job['outs'])
    mut = env.choose('mutable', [False, True])
    o = mk_tx(t, mut, env.choose('vectors', ['both', 'none']) if wit_null(t) else 'both')
    n = env.choose('script-len', [0, 1, 2, 253] if job['ht'] in (1, 0x83) else [1])
    sc = env.bytes('code', n)
    amount = field(env, 'amount', 'value', env.choose('amount-kind', ['explicit', 'commitment', 'null']))
    s = CElementsScript(sc)
    idx = job['idx']
    a = CConfidentialValue(amount)
    if job['ht'] == 'any':
        ht = env.int('hashtype', -2**31, 2**31 - 1)
        h, err = s.raw_sighash(o, idx, ht, amount=a, sigversion=SIGVERSION_WITNESS_V0)
        env.check(err is None, 'no-error')
    else:
        ht = job['ht']
        h = s.sighash(o, idx, ht, amount=a, sigversion=SIGVERSION_WITNESS_V0)
        h2, err = RawElementsSignatureHash(s, o, idx, SIGHASH_Type(ht), a, SIGVERSION_WITNESS_V0)
        env.check(err is None and h2 == h, 'raw-hash')
    env.check(h == dsha(msg_v0(t, idx, ht, sc, amount)), 'hash')
    env.check(o.serialize() == mk_tx(t, mut).serialize(), 'transaction-unchanged')
    env.reach('hash')
