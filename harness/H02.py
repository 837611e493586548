"""H02: legacy signature hash"""
from harness.lib import mk_tx, tx, dsha, CElementsScript, wit_null
from harness.refhash import msg_legacy
from harness.P01 import ref_push
from harness.sigshapes import sig_shapes, HIST_INS, HIST_OUTS, CHANGES, apply_change
from elementstx.core.script import RawElementsSignatureHash
from bitcointx.core.script import SIGVERSION_BASE, SIGHASH_Type

BOUNDS = ('transactions of 1..2 (thorough 1..4) inputs and 0..3 outputs with all field contents, every input index including '
          'the ones past the end, the six supported hash types through sighash() and every 32-bit hash type through '
          'raw_sighash(), script codes of 0..3 bytes (thorough 0..4) and of 253 bytes, mutable and immutable transactions; '
          'OP_CODESEPARATOR removed at opcode boundaries; two inputs of one transaction hashed, then one of %d changes of the '
          'object (or another object), then hashed again' % len(CHANGES))
ASSUMPTIONS = ['equality of double SHA-256 values is decided as equality of the hashed bytes',
               'the script code parses completely and is not a witness program (bitcointx refuses those with an exception)']

TYPES = [1, 2, 3, 0x81, 0x82, 0x83]


def jobs(tier):
    out = []
    for name, ins, outs in sig_shapes(tier):
        for idx in range(len(ins) + 2):
            for ht in TYPES + ['any']:
                if idx > len(ins) and ht not in (1, 'any'):
                    continue
                err = idx >= len(ins) or (ht in (3, 0x83) and idx >= len(outs))
                out.append({'name': '%s-in%d-%s' % (name, idx, ht), 'ins': ins, 'outs': outs, 'idx': idx, 'ht': ht,
                            'code': [1], 'reach': ['one' if err else 'hash']})
    name, ins, outs = sig_shapes(tier)[3]
    for n in [0, 2, 3, 253] + ([4] if tier == 'thorough' else []):
        out.append({'name': 'code-%d' % n, 'ins': ins, 'outs': outs, 'idx': 1, 'ht': 1, 'code': [n], 'reach': ['hash']})
        out.append({'name': 'code-%d-single' % n, 'ins': ins, 'outs': outs, 'idx': 0, 'ht': 0x83, 'code': [n],
                    'reach': ['hash']})
    for ht in TYPES:
        for c in CHANGES:
            out.append({'name': 'again-%s-%s' % (ht, c), 'op': 'again', 'ht': ht, 'change': c, 'reach': ['again']})
    return out


def ref_code(s):
    """script without code separators; None when it does not parse"""
    r, i = b'', 0
    while i < len(s):
        ok, op, d, j = ref_push(s, i)
        if not ok:
            return None
        if op != 0xab:
            r = r + s[i:j]
        i = j
    return r


def again(env, job):
    """hashing an object again after a change gives what a new object with that content gives"""
    t = tx(env, HIST_INS, HIST_OUTS)
    o = mk_tx(t, True)
    ht, idx = job['ht'], env.choose('idx', [0, 1])
    sc = env.bytes('code', 1)
    env.assume((sc[0] > 0x4e) & (sc[0] != 0xab))

    def ask(o, u, k, ht, s, label):
        env.check(CElementsScript(s).sighash(o, k, SIGHASH_Type(ht)) == dsha(msg_legacy(u, k, ht, s)), label)
    ask(o, t, idx, ht, sc, 'first')
    ask(o, t, 1 - idx, {1: 0x82, 2: 1, 3: 1, 0x81: 3, 0x82: 0x81, 0x83: 2}[ht], sc, 'other-input')
    u, o = apply_change(env, t, o, job['change'])
    sc2 = sc if env.choose('same-code', [True, False]) else b'\x51'
    ask(o, u, env.choose('idx2', [0, 1]), ht, sc2, 'after-change')
    env.reach('again')


def run(env, job):
    if job.get('op') == 'again':
        again(env, job)
        return
    t = tx(env, job['ins'], job['outs'])
    mut = env.choose('mutable', [False, True])
    o = mk_tx(t, mut, env.choose('vectors', ['both', 'none']) if wit_null(t) else 'both')
    n = env.choose('script-len', job['code'])
    if n == 253:
        sc = b'\x4c' + bytes([200]) + env.bytes('code', 200) + b'\xab' + b'\x01' + env.bytes('code2', 1) + b'\x76' * 48
    else:
        sc = env.bytes('code', n)
    code = ref_code(sc)
    if code is None:
        return
    if n == 4:
        env.assume(CElementsScript(sc).is_witness_scriptpubkey() == False)  # noqa: E712
    idx = job['idx']
    s = CElementsScript(sc)
    before = o.serialize()
    any_type = job['ht'] == 'any'
    ht = env.int('hashtype', -2**31, 2**31 - 1) if any_type else SIGHASH_Type(job['ht'])
    h, err = s.raw_sighash(o, idx, ht, sigversion=SIGVERSION_BASE)
    m = msg_legacy(t, idx, ht, code)
    if m is None:
        env.check(h == b'\x01' + bytes(31), 'the-number-one')
        env.check(isinstance(err, str) and len(err) > 0, 'error-signalled')
        if not any_type:
            try:
                s.sighash(o, idx, job['ht'])
                env.fail('sighash-refuses')
            except ValueError:
                pass
        env.reach('one')
    else:
        env.check(h == dsha(m), 'hash')
        env.check(err is None, 'no-error')
        if not any_type:
            env.check(s.sighash(o, idx, job['ht']) == h, 'sighash')
            h2, err = RawElementsSignatureHash(s, o, idx, ht)
            env.check(err is None and h2 == h, 'raw-hash')
        env.reach('hash')
    env.check(o.serialize() == before, 'transaction-unchanged')
