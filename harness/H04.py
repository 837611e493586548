"""H04: what signature hashes commit to, and refused requests"""
import copy
from harness.lib import (Spec, mk_tx, tx, txin, txout, mk_txout, field, issuance, null_issuance, CElementsScript,
                         CConfidentialValue)
from elementstx.core.script import ElementsSignatureHashSchnorr, RawElementsSignatureHash
from bitcointx.core.script import (SIGVERSION_BASE, SIGVERSION_WITNESS_V0, SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT,
                                   SIGHASH_Type)

BOUNDS = ('pairs of requests over transactions of 2 inputs and 2..3 outputs that differ in one component (every field of the '
          'transaction, its witnesses, the spent outputs and the request), both contents arbitrary and different, for both '
          'input indices, all hash types, segwit v0, legacy, taproot and tapscript; requests with every index -3..len+2, '
          'every count of spent outputs 0..4, hash arguments of 0..65 bytes, every signature version -1..6')
ASSUMPTIONS = ['two SHA-256 values are different when the hashed bytes are (collision freedom)',
               'legacy script codes are single non-push opcodes other than the code separator']

TYPES = [1, 2, 3, 0x81, 0x82, 0x83]
E, N, C = 'explicit', 'null', 'commitment'

IN = ['hash', 'n', 'seq', 'script', 'pegin', 'iss-nonce', 'iss-entropy', 'iss-amount', 'iss-keys', 'iss-kind', 'aproof',
      'kproof', 'wstack', 'pstack', 'spent-asset', 'spent-value', 'spent-nonce', 'spent-script', 'spent-script-len']
OUT = ['asset', 'value', 'nonce', 'script', 'script-len', 'value-kind', 'surjection', 'rangeproof', 'proof-split']
REQ = ['version', 'locktime', 'code', 'code-len', 'amount', 'amount-kind', 'hashtype', 'genesis', 'annex', 'annex-kind', 'leaf', 'codesep',
       'path', 'swap-out', 'extra-out', 'extra-in', 'swap-in', 'spent-split']


def jobs(tier):
    out = []
    for algo in ('v0', 'legacy', 'key', 'leaf'):
        for idx in (0, 1):
            for ht in TYPES + ([None] if algo in ('key', 'leaf') else []):
                for part in ('req', 'own', 'other', 'outs'):
                    out.append({'name': 'pair-%s-%d-%s-%s' % (algo, idx, ht, part), 'op': 'pair', 'algo': algo, 'idx': idx,
                                'ht': ht, 'part': part, 'outs': 2, 'reach': ['committed' if part != 'x' else '']})
                    if part == 'other' and (ht or 0) & 0x80:
                        out[-1]['reach'] = ['excluded']
                    if part == 'outs' and (ht or 0) & 3 == 2:
                        out[-1]['reach'] = ['excluded']
                    if tier == 'thorough' and part == 'outs':
                        out.append(dict(out[-1], name=out[-1]['name'] + '-3', outs=3))
    for what in ('index', 'spent', 'genesis', 'annex', 'leaf', 'single', 'sigversion', 'noleaf', 'legacy'):
        out.append({'name': 'refuse-' + what, 'op': 'refuse', 'what': what, 'reach': ['refused']})
    return out


def base(env, nout):
    ins = [dict(iss=(E, E), script=1, wit=(2, 1, (1,), (1,))), dict(iss=(E, N), wit=(1, 1, (1,), ()))]
    outs = [dict(kinds=(C, C, C), wit=(2, 3)), dict(kinds=(E, E, C), wit=(1, 1)), dict(kinds=(E, C, N), wit=(0, 1))][:nout]
    t = tx(env, ins, outs)
    return Spec(tx=t, spent=[txout(env, 'spent0', E, E, C, 1), txout(env, 'spent1', C, C, C, 2)],
                code=b'\x76', amount=field(env, 'amount', 'value', E), genesis=env.bytes('genesis', 32),
                annex=env.bytes('annex', 32), leaf=env.bytes('leaf', 32), codesep=env.int('codesep', -2**31, 2**31 - 1),
                ht=None, path=None)


def dup(r):
    """copy of the request that shares no list or bag with it"""
    def c(x):
        return Spec(**x.__dict__)
    q = c(r)
    q.spent = [c(s) for s in r.spent]
    t = q.tx = c(r.tx)
    t.vin = [c(i) for i in t.vin]
    for i in t.vin:
        i.iss = c(i.iss)
    t.vout = [c(o) for o in t.vout]
    t.inwit = [c(w) for w in t.inwit]
    t.outwit = [c(w) for w in t.outwit]
    return q


def answer(env, r, algo, idx):
    o = mk_tx(r.tx)
    if algo in ('v0', 'legacy'):
        s = CElementsScript(r.code)
        return s.sighash(o, idx, r.ht, amount=CConfidentialValue(r.amount) if algo == 'v0' else None,
                         sigversion=SIGVERSION_WITNESS_V0 if algo == 'v0' else SIGVERSION_BASE)
    kw = dict(hashtype=None if r.ht is None else SIGHASH_Type(r.ht), annex_hash=r.annex, genesis_block_hash=r.genesis)
    so = [mk_txout(s) for s in r.spent]
    if r.path == 'leaf':
        kw.update(sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=r.leaf, codeseparator_pos=r.codesep)
    return ElementsSignatureHashSchnorr(o, idx, so, **kw)


def change(env, old, n):
    """other content of the same length"""
    new = env.bytes('new', len(old) if n is None else n)
    if len(new) == len(old):
        env.assume(new != old)
    return new


def tail(env, old):
    new = old[:1] + env.bytes('new', len(old) - 1)
    env.assume(new != old)
    return new


def change_in(env, r, k, what):
    i, w, s = r.tx.vin[k], r.tx.inwit[k], r.spent[k]
    if what == 'hash':
        i.hash = change(env, i.hash, None)
    elif what == 'n':
        v = env.int('new', 0, 0x3ffffffe)
        env.assume(v != i.n)
        i.n = v
    elif what == 'seq':
        v = env.int('new', 0, 2**32 - 1)
        env.assume(v != i.seq)
        i.seq = v
    elif what == 'script':
        i.script = env.bytes('new', 2)
    elif what == 'pegin':
        v = env.bool('new')
        env.assume(v != i.pegin)
        i.pegin = v
    elif what == 'iss-nonce':
        i.iss.blinding_nonce = change(env, i.iss.blinding_nonce, None)
    elif what == 'iss-entropy':
        i.iss.entropy = change(env, i.iss.entropy, None)
    elif what == 'iss-amount':
        i.iss.amount = tail(env, i.iss.amount)
    elif what == 'iss-keys':
        i.iss.keys = tail(env, i.iss.keys) if k == 0 else field(env, 'new', 'value', E)
    elif what == 'iss-kind':
        kind = env.choose('new-kind', ['confidential', 'none'])
        if kind == 'none':
            i.iss = null_issuance()
        else:
            i.iss.amount = field(env, 'new', 'value', C)
    elif what == 'aproof':
        w.amount_proof = change(env, w.amount_proof, env.choose('new-len', [len(w.amount_proof), 3]))
    elif what == 'kproof':
        w.keys_proof = change(env, w.keys_proof, env.choose('new-len', [len(w.keys_proof), 3]))
    elif what == 'wstack':
        w.stack = [env.bytes('new', 1), env.bytes('new', 1)]
    elif what == 'pstack':
        w.pegin_stack = [env.bytes('new', 3)]
    elif what == 'spent-asset':
        s.asset = tail(env, s.asset)
    elif what == 'spent-value':
        s.value = tail(env, s.value)
    elif what == 'spent-nonce':
        s.nonce = tail(env, s.nonce)
    elif what == 'spent-script':
        s.script = change(env, s.script, None)
    elif what == 'spent-script-len':
        s.script = env.bytes('new', 5)


def change_out(env, r, k, what):
    o, w = r.tx.vout[k], r.tx.outwit[k]
    if what == 'asset':
        o.asset = tail(env, o.asset)
    elif what == 'value':
        o.value = tail(env, o.value)
    elif what == 'nonce':
        o.nonce = tail(env, o.nonce) if len(o.nonce) else field(env, 'new', 'nonce', C)
    elif what == 'script':
        o.script = change(env, o.script, None)
    elif what == 'script-len':
        o.script = env.bytes('new', 3)
    elif what == 'value-kind':
        o.value = field(env, 'new', 'value', C if len(o.value) == 9 else E)
    elif what == 'surjection':
        w.surjection = change(env, w.surjection, None) if len(w.surjection) else env.bytes('new', 1)
    elif what == 'rangeproof':
        w.rangeproof = change(env, w.rangeproof, None)
    elif what == 'proof-split':
        # the same bytes, divided differently
        both = w.surjection + w.rangeproof
        w.surjection, w.rangeproof = both[:len(w.surjection) + 1], both[len(w.surjection) + 1:]


def committed(algo, idx, ht, part, k, what):
    """does the hash type commit to this component?"""
    acp = (ht or 0) & 0x80
    mode = (ht or 1) & 0x7f
    tap = algo in ('key', 'leaf')
    if part == 'outs':
        if what in ('surjection', 'rangeproof', 'proof-split') and not tap:
            return False
        return mode == 1 or (mode == 3 and k == idx)
    own = part == 'own'
    if what in ('script', 'wstack', 'pstack', 'spent-nonce'):
        return False
    if not own and acp:
        return False
    if what == 'seq':
        return own or mode == 1 or tap
    if what == 'pegin' or what.startswith('spent-') or what in ('aproof', 'kproof'):
        return tap
    return True


def run(env, job):
    if job['op'] == 'refuse':
        return refuse(env, job['what'])
    algo, idx, part, ht = job['algo'], job['idx'], job['part'], job['ht']
    r = base(env, job['outs'])
    r.ht = ht
    r.path = algo
    q = dup(r)
    tap = algo in ('key', 'leaf')
    if part == 'req':
        what = env.choose('component', REQ)
        want = change_req(env, q, algo, idx, ht, what)
        if want is None:
            return
    elif part == 'outs':
        k = env.choose('output', list(range(job['outs'])))
        what = env.choose('component', OUT)
        change_out(env, q, k, what)
        want = committed(algo, idx, ht, part, k, what)
    else:
        k = idx if part == 'own' else 1 - idx
        what = env.choose('component', IN)
        change_in(env, q, k, what)
        want = committed(algo, idx, ht, part, k, what)
    a = answer(env, r, algo, idx)
    b = answer(env, q, algo, idx)
    if want:
        env.check(a != b, 'commits-to-' + what)
        env.reach('committed')
    else:
        env.check(a == b, 'ignores-' + what)
        env.reach('excluded')


def change_req(env, q, algo, idx, ht, what):
    tap = algo in ('key', 'leaf')
    acp = (ht or 0) & 0x80
    mode = (ht or 1) & 0x7f
    t = q.tx
    if what == 'version':
        v = env.int('new', -2**31, 2**31 - 1)
        env.assume(v != t.version)
        t.version = v
    elif what == 'locktime':
        v = env.int('new', 0, 2**32 - 1)
        env.assume(v != t.locktime)
        t.locktime = v
    elif what == 'code':
        c = env.int('new', 0x4f, 0xff)
        env.assume((c != 0xab) & (c != 0x76))
        q.code = bytes([c])
        return not tap
    elif what == 'code-len':
        c = env.int('new', 0x4f, 0xff)
        env.assume(c != 0xab)
        q.code = b'\x76' + bytes([c])
        return not tap
    elif what == 'amount':
        q.amount = tail(env, q.amount)
        return algo == 'v0'
    elif what == 'amount-kind':
        q.amount = field(env, 'new', 'value', C)
        return algo == 'v0'
    elif what == 'hashtype':
        other = [x for x in TYPES + ([None] if tap else []) if x != ht]
        q.ht = env.choose('new', other)
    elif what == 'genesis':
        q.genesis = change(env, q.genesis, None)
        return tap
    elif what == 'annex':
        q.annex = change(env, q.annex, None)
        return tap
    elif what == 'annex-kind':
        q.annex = None
        return tap
    elif what == 'leaf':
        q.leaf = change(env, q.leaf, None)
        return algo == 'leaf'
    elif what == 'codesep':
        v = env.int('new', -2**31, 2**31 - 1)
        env.assume(v != q.codesep)
        q.codesep = v
        return algo == 'leaf'
    elif what == 'path':
        if not tap:
            return None
        q.path = 'key' if q.path == 'leaf' else 'leaf'
    elif what == 'swap-out':
        # outputs of different kinds change places (with their proofs)
        t.vout = t.vout[::-1]
        t.outwit = t.outwit[::-1]
        return mode != 2
    elif what == 'extra-out':
        t.vout = t.vout + [txout(env, 'extra')]
        t.outwit = t.outwit + [Spec(surjection=b'', rangeproof=b'')]
        return mode == 1
    elif what == 'extra-in':
        t.vin = t.vin + [txin(env, 'extra')]
        t.inwit = t.inwit + [Spec(amount_proof=b'', keys_proof=b'', stack=[], pegin_stack=[])]
        q.spent = q.spent + [txout(env, 'extra-spent')]
        return not acp
    elif what == 'swap-in':
        t.vin = t.vin[::-1]
        t.inwit = t.inwit[::-1]
        q.spent = q.spent[::-1]
    elif what == 'spent-split':
        # the same script bytes, divided differently between the spent outputs
        both = q.spent[0].script + q.spent[1].script
        q.spent[0].script, q.spent[1].script = both[:2], both[2:]
        return tap
    return True


def refused(env, f, label):
    try:
        f()
    except ValueError:
        env.reach('refused')
    else:
        env.fail(label)


def refuse(env, what):
    outs = [dict(kinds=(E, E, N))]
    t = tx(env, [dict(iss=(E, N), wit=(1, 0, (), ())), dict(), dict()], outs)
    o = mk_tx(t, env.choose('mutable', [False, True]))
    spent = [mk_txout(txout(env, 'spent%d' % k)) for k in range(3)]
    g = env.bytes('genesis', 32)
    ht = env.choose('hashtype', [None] + TYPES)
    if ht is not None:
        ht = SIGHASH_Type(ht)
    leaf = env.bytes('leaf', 32)
    code = CElementsScript(b'\x51')
    entry = env.choose('entry', ['key', 'leaf', 'script'])

    def ask(idx=0, spent=spent, genesis=g, annex=None, leaf=leaf):
        if entry == 'key':
            return ElementsSignatureHashSchnorr(o, idx, spent, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis)
        if entry == 'leaf':
            return ElementsSignatureHashSchnorr(o, idx, spent, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis,
                                                sigversion=SIGVERSION_TAPSCRIPT, tapleaf_hash=leaf)
        return code.sighash_schnorr(o, idx, spent, hashtype=ht, annex_hash=annex, genesis_block_hash=genesis)
    if what == 'index':
        idx = env.int('idx', -3, 6)
        env.assume((idx < 0) | (idx > 2))
        refused(env, lambda: ask(idx=idx), 'index')
    elif what == 'spent':
        n = env.choose('count', [0, 1, 2, 4])
        refused(env, lambda: ask(spent=(spent + spent)[:n]), 'spent-count')
    elif what in ('genesis', 'annex', 'leaf'):
        n = env.choose('len', [k for k in range(66) if k != 32] if ht is None or env.tier == 'thorough' else [0, 31, 33])
        b = env.bytes('bad', n)
        if what == 'leaf' and entry == 'script':
            return
        if what == 'leaf':
            refused(env, lambda: ElementsSignatureHashSchnorr(
                o, 0, spent, hashtype=ht, genesis_block_hash=g, tapleaf_hash=b,
                sigversion=SIGVERSION_TAPSCRIPT if entry == 'leaf' else SIGVERSION_TAPROOT), 'leaf-size')
        else:
            refused(env, lambda: ask(**{what: b}), what + '-size')
    elif what == 'single':
        if ht is None or int(ht) & 0x7f != 3:
            return
        idx = env.int('idx', 1, 2)
        refused(env, lambda: ask(idx=idx), 'single-without-output')
    elif what == 'noleaf':
        refused(env, lambda: ElementsSignatureHashSchnorr(o, 0, spent, hashtype=ht, genesis_block_hash=g,
                                                          sigversion=SIGVERSION_TAPSCRIPT), 'tapscript-without-leaf')
        refused(env, lambda: ElementsSignatureHashSchnorr(
            o, 0, spent, hashtype=ht, genesis_block_hash=g, tapleaf_hash=leaf, codeseparator_pos=None,
            sigversion=SIGVERSION_TAPSCRIPT), 'tapscript-without-position')
    elif what == 'sigversion':
        v = env.choose('version', [-1, 0, 1, 4, 5, 6])
        if v in (SIGVERSION_TAPROOT, SIGVERSION_TAPSCRIPT):
            return
        refused(env, lambda: ElementsSignatureHashSchnorr(o, 0, spent, hashtype=ht, genesis_block_hash=g, tapleaf_hash=leaf,
                                                          sigversion=v), 'schnorr-sigversion')
    else:
        if ht is None:
            return
        v = env.choose('version', [-1, 2, 3, 4, 5, 6])
        if v not in (SIGVERSION_BASE, SIGVERSION_WITNESS_V0):
            refused(env, lambda: code.sighash(o, 0, ht, amount=CConfidentialValue(1), sigversion=v), 'sigversion')
            refused(env, lambda: RawElementsSignatureHash(code, o, 0, ht, CConfidentialValue(1), v), 'raw-sigversion')
        refused(env, lambda: code.sighash(o, -1, ht), 'legacy-negative-index')
        idx = env.int('idx', 3, 7)
        refused(env, lambda: code.sighash(o, idx, ht), 'legacy-index')
        if int(ht) & 0x7f == 3:
            k = env.int('idx', 1, 2)
            refused(env, lambda: code.sighash(o, k, ht), 'legacy-single')
