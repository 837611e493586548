"""D01: results do not depend on the selected chain"""
import bitcointx.core as bc
import bitcointx.core.key as bk
import bitcointx.wallet as bw
import elementstx.core as ec
import elementstx.wallet as w
from bitcointx import select_chain_params, get_current_chain_params, ChainParams
from bitcointx.core.script import SIGVERSION_WITNESS_V0, SIGVERSION_BASE, SIGVERSION_TAPSCRIPT, SIGHASH_Type, CScript
from elementstx.core import (CElementsTransaction, CElementsMutableTransaction, CElementsOutPoint, CConfidentialValue,
                             generate_asset_entropy, calculate_asset, calculate_reissuance_token)
from elementstx.core.script import CElementsScript, ElementsSignatureHashSchnorr, RawElementsSignatureHash
from harness import zkp
from harness.addrlib import KINDS, BY_NAME, TYPES, NAME, setup, same_text
from harness.lib import mk_tx, mk_txout, tx, txout, ref_tx, wit_null, dsha
from harness.sigshapes import sig_shapes
from harness.txshapes import shapes
from harness.blindlib import scene, blind, requested
from harness.B01 import judge_balance

CHAIN = {'el': 'elements', 'lq': 'elements/liquidv1', 'btc': 'bitcoin', 'test': 'bitcoin/testnet'}
BOUNDS = ('every sequence of three selections among the two Elements chains and Bitcoin (thorough: also Bitcoin testnet), by select_chain_params '
          'and by nested ChainParams blocks left normally and by an exception; transactions of 0..2 (thorough 0..3) inputs and outputs of all '
          'field contents; every payload of the 20 address classes; every asset derivation input')
ASSUMPTIONS = ['base58 is modelled as an abstract one-to-one coding of byte strings', 'SHA-256 is collision free']

CORE = ['Transaction', 'MutableTransaction', 'TxIn', 'MutableTxIn', 'TxOut', 'MutableTxOut', 'OutPoint', 'MutableOutPoint', 'TxInWitness',
        'MutableTxInWitness', 'TxOutWitness', 'MutableTxOutWitness', 'TxWitness', 'MutableTxWitness']

BLIND = [(['b'], ['B0', 'F']), (['p/nATat', 'b/rAa'], ['B1', 'B4', 'B0'])]


def jobs(tier):
    out = []
    chains = ['el', 'lq', 'btc'] + (['test'] if tier == 'thorough' else [])
    seqs = [(a, b, c) for a in chains for b in chains for c in chains]
    sh = shapes(tier)
    keep = sh if tier == 'thorough' else [s for k, s in enumerate(sh) if k % 3 == 0 or 'two' in s[0]]
    for name, ins, outs in keep:
        out.append({'name': 'tx-' + name, 'op': 'tx', 'ins': ins, 'outs': outs, 'chains': chains, 'reach': ['tx']})
    for name, ins, outs in sig_shapes(tier):
        for idx in range(len(ins)):
            out.append({'name': 'sig-%s-in%d' % (name, idx), 'op': 'sig', 'ins': ins, 'outs': outs, 'idx': idx, 'chains': chains,
                        'reach': ['sig']})
    for k in KINDS:
        out.append({'name': 'address-' + k.name, 'op': 'address', 'kind': k.name, 'chains': chains, 'reach': ['address']})
    for n in (0, 1, 22, 23, 25, 34):
        out.append({'name': 'script-%d' % n, 'op': 'script', 'n': n, 'chains': chains, 'reach': ['script']})
    out.append({'name': 'asset', 'op': 'asset', 'chains': chains, 'reach': ['asset']})
    out.append({'name': 'unblinded-fields', 'op': 'fields', 'chains': chains, 'reach': ['fields']})
    for k, (i, o) in enumerate(BLIND):
        for c in chains:
            out.append({'name': 'blind-%d-%s' % (k, c), 'op': 'blind', 'ins': i, 'outs': o, 'seq': [c], 'reach': ['blind']})
    for s in seqs:
        out.append({'name': 'generic-' + '-'.join(s), 'op': 'generic', 'seq': s, 'reach': ['generic']})
        out.append({'name': 'nested-' + '-'.join(s), 'op': 'nested', 'seq': s, 'reach': ['nested']})
    return out


def select(c):
    select_chain_params(CHAIN[c])


def over(chains):
    """a sequence of selections in which every ordered pair of chains occurs one right after the other"""
    r, left = [chains[0]], {(a, b) for a in chains for b in chains}
    while left:
        # a step not taken yet, preferring to stay; back to where one is left otherwise
        nxt = [b for b in [r[-1]] + chains[::-1] if (r[-1], b) in left] or [min(left)[0]]
        left.discard((r[-1], nxt[0]))
        r.append(nxt[0])
    return r


def elements_classes(x):
    """the classes of a transaction and all its parts are those of Elements"""
    if type(x) is CElementsTransaction:
        m = ''
    elif type(x) is CElementsMutableTransaction:
        m = 'Mutable'
    else:
        return False
    c = lambda n: getattr(ec, 'CElements%s%s' % (m, n))
    r = type(x.wit) is c('TxWitness')
    for i in x.vin:
        r = r and type(i) is c('TxIn') and type(i.prevout) is c('OutPoint') and type(i.scriptSig) is CElementsScript
        r = r and type(i.assetIssuance) is ec.CAssetIssuance
    for o in x.vout:
        r = r and type(o) is c('TxOut') and type(o.scriptPubKey) is CElementsScript and type(o.nValue) is CConfidentialValue
        r = r and type(o.nAsset) is ec.CConfidentialAsset and type(o.nNonce) is ec.CConfidentialNonce
    for i in x.wit.vtxinwit:
        r = r and type(i) is c('TxInWitness')
    for o in x.wit.vtxoutwit:
        r = r and type(o) is c('TxOutWitness')
    return r


def run(env, job):
    globals()['run_' + job['op']](env, job)
    env.reach(job['reach'][0])


def run_tx(env, job):
    t = tx(env, job['ins'], job['outs'])
    want = ref_tx(t)
    bare = ref_tx(t, witness=False)
    first = None
    for c in over(job['chains']):
        select(c)
        made = [mk_tx(t), mk_tx(t, True)]
        for cls in (CElementsTransaction, CElementsMutableTransaction):
            x = cls.deserialize(want)
            env.check(type(x) is cls, 'parsed-class')
            made.append(x)
        made.append(made[0].to_mutable())
        made.append(made[1].to_immutable())
        made.append(CElementsTransaction.from_tx(made[1]))
        made.append(CElementsMutableTransaction.from_tx(made[0]))
        if c in ('el', 'lq'):
            made.append(bc.CTransaction.deserialize(want))
            env.check(type(made[-1]) is CElementsTransaction, 'generic-parse')
        r = []
        for x in made:
            env.check(elements_classes(x), 'classes')
            env.check(x.serialize() == want, 'encoding')
            env.check(x.GetTxid() == dsha(bare), 'txid')
            env.check(x.GetHash() == dsha(want), 'hash')
            r.append((x.num_issuances, [o.is_fee() for o in x.vout], x.is_coinbase(), x.has_witness(), x.wit.is_null()))
        if first is None:
            first = r
        env.check(all(a == b for a, b in zip(first, r)), 'same-answers')


def run_sig(env, job):
    t = tx(env, job['ins'], job['outs'])
    idx = job['idx']
    code = CElementsScript(env.bytes('code', 1))
    env.assume(bytes(code) != b'\xab')
    env.assume((code[0] > 0x4e))
    amount = CConfidentialValue(b'\x01' + env.bytes('amount', 8))
    genesis, leaf, annex = env.bytes('genesis', 32), env.bytes('leaf', 32), env.bytes('annex', 32)
    spent = [txout(env, 'spent%d' % k, script=1) for k in range(len(t.vin))]
    first = {}
    for c in over(job['chains']):
        select(c)
        x = mk_tx(t)
        so = [mk_txout(s) for s in spent]
        r = {}
        for ht in (1, 2, 3, 0x81, 0x82, 0x83):
            single = ht & 3 == 3 and idx >= len(t.vout)
            h = SIGHASH_Type(ht)
            r['v0', ht] = code.sighash(x, idx, ht, amount=amount, sigversion=SIGVERSION_WITNESS_V0)
            r['raw', ht] = RawElementsSignatureHash(code, x, idx, h, amount, SIGVERSION_WITNESS_V0)[0]
            if single:
                continue
            if c in ('el', 'lq'):
                # legacy hashing builds generic classes; for it only the history matters
                r['base', ht] = code.sighash(x, idx, ht, sigversion=SIGVERSION_BASE)
            r['key', ht] = ElementsSignatureHashSchnorr(x, idx, so, hashtype=h, annex_hash=annex, genesis_block_hash=genesis)
            r['leaf', ht] = ElementsSignatureHashSchnorr(x, idx, so, hashtype=h, genesis_block_hash=genesis, tapleaf_hash=leaf,
                                                         codeseparator_pos=-1, sigversion=SIGVERSION_TAPSCRIPT)
            r['script', ht] = code.sighash_schnorr(x, idx, so, hashtype=h, genesis_block_hash=genesis)
        for k, v in r.items():
            env.check(first.setdefault(k, v) == v, 'same-hash')


def run_asset(env, job):
    h, n, contract = env.bytes('hash', 32), env.int('n', 0, 0xffffffff), env.bytes('contract', 32)
    first = None
    for c in over(job['chains']):
        select(c)
        e = generate_asset_entropy(CElementsOutPoint(h, n), contract)
        ids = [calculate_asset(e), calculate_reissuance_token(e, False), calculate_reissuance_token(e, True)]
        env.check(type(e) is bc.Uint256 and all(type(x) is ec.CAsset for x in ids), 'classes')
        r = [e.data] + [x.data for x in ids]
        if first is None:
            first = r
        for a, b in zip(first, r):
            env.check(a == b, 'same-derivation')


def run_fields(env, job):
    v, a = env.int('amount', 0, 2**63 - 1), env.bytes('asset', 32)
    raw = [env.bytes('field', k) for k in (9, 33)]
    first = None
    for c in over(job['chains']):
        select(c)
        val = CConfidentialValue.from_amount(v)
        ass = ec.CConfidentialAsset.from_asset(ec.CAsset(a))
        env.check(val.to_amount() == v, 'amount')
        env.check(ass.to_asset().data == a, 'asset')
        r = [val.commitment, ass.commitment]
        for cls, d in ((CConfidentialValue, raw[0]), (ec.CConfidentialAsset, raw[1]), (ec.CConfidentialNonce, raw[1])):
            x = cls(d)
            r += [x.is_null(), x.is_explicit(), x.is_commitment(), x.is_valid()]
        if first is None:
            first = r
        for p, q in zip(first, r):
            env.check(p == q, 'same-field')


def run_address(env, job):
    setup(env, 'el')
    zkp.install(env)
    k = BY_NAME[job['kind']]
    payload = env.bytes('payload', k.size)
    first = None
    for c in over(job['chains']):
        select(c)
        a = k.cls.from_bytes(payload)
        s = a.to_scriptPubKey()
        env.check(type(a) is k.cls and len(a) == k.size and bytes(a) == payload, 'payload')
        env.check(isinstance(s, CScript) and s == k.script(payload), 'script')
        t = str(a)
        if first is None:
            first = t
        env.check(same_text(env, t, first), 'same-text')
        for name in (k.name, 'C%sAddress' % NAME[k.chain]):
            x = getattr(w, name)(first)
            env.check(type(x) is k.cls and len(x) == k.size and bytes(x) == payload, 'read-back')
        if k.conf:
            u = a.to_unconfidential()
            env.check(u.__class__.__name__ == '%s%sAddress' % (k.typ, NAME[k.chain]) and bytes(u) == payload[33:], 'unconfidential')
            env.check(bytes(a.blinding_pubkey) == payload[:33], 'blinding-key')
        else:
            x = getattr(w, 'C%sAddress' % NAME[k.chain]).from_scriptPubKey(CElementsScript(k.script(payload)))
            env.check(type(x) is k.cls and bytes(x) == payload, 'from-script')


def run_blind(env, job):
    lib = zkp.install(env)
    select('lq' if job['seq'] == ['el'] else 'el')
    s = scene(env, job['ins'], job['outs'], None)
    select(job['seq'][0])
    r = blind(env, s)
    env.check(r.error == '' and r.num_successfully_blinded == requested(s), 'all-blinded')
    env.check(elements_classes(s.tx), 'classes')
    judge_balance(env, s, lib, r)
    opened = 0
    for k, o in enumerate(s.outs):
        if o.kind != 'B':
            continue
        u = s.tx.vout[k].unblind_confidential_pair(o.key, s.tx.wit.vtxoutwit[k].rangeproof)
        env.check(u.error == '', 'opens')
        env.check(u.amount == o.amount, 'amount')
        env.check(u.asset.data == o.asset, 'asset')
        opened += 1
    env.check(opened > 0, 'opened')


def run_script(env, job):
    raw = env.bytes('script', job['n'])
    first = None
    for c in over(job['chains']):
        select(c)
        s = CElementsScript(raw)
        p, q = s.to_p2sh_scriptPubKey(), s.to_p2wsh_scriptPubKey()
        env.check(type(s) is CElementsScript and type(p) is CElementsScript and type(q) is CElementsScript, 'classes')
        r = [bytes(s), bytes(p), bytes(q), s.is_unspendable(), s.is_p2sh(), s.is_witness_scriptpubkey()]
        if first is None:
            first = r
        for a, b in zip(first, r):
            env.check(a == b, 'same-script')


def resolves(env, c, payload):
    """what generic classes stand for while the chain is selected"""
    el = c in ('el', 'lq')
    env.check(get_current_chain_params().NAME == CHAIN[c], 'selected')
    for n in CORE:
        t = type(getattr(bc, 'C' + n)())
        env.check((t is getattr(ec, 'CElements' + n)) == el, 'core-class')
        t = type(getattr(ec, 'CElements' + n)())
        env.check(t is getattr(ec, 'CElements' + n), 'explicit-class')
    env.check((type(CScript(b'')) is CElementsScript) == el, 'script-class')
    env.check((type(bc.CTransaction([bc.CTxIn()], [bc.CTxOut()]).vin[0]) is ec.CElementsTxIn) == el, 'nested-class')
    for typ in TYPES:
        p = payload[:32 if typ in ('P2WSH', 'P2TR') else 20]
        a = getattr(bw, typ + 'CoinAddress').from_bytes(p)
        for ch in ('el', 'lq'):
            cls = getattr(w, '%s%sAddress' % (typ, NAME[ch]))
            env.check((type(a) is cls) == (c == ch), 'address-class')
            env.check(type(cls.from_bytes(p)) is cls, 'explicit-address')
            conf = getattr(w, '%s%sConfidentialAddress' % (typ, NAME[ch]))
            env.check(type(conf.from_bytes(payload[32:65] + p)) is conf, 'explicit-confidential-address')
        env.check(bytes(a) == p, 'address-payload')
        if el:
            a = getattr(w, typ + 'CoinConfidentialAddress').from_bytes(payload[32:65] + p)
            env.check(type(a) is getattr(w, '%s%sConfidentialAddress' % (typ, NAME[c])), 'confidential-class')
    k = bw.CCoinKey.from_secret_bytes(payload[65:97])
    for ch in ('el', 'lq'):
        cls = getattr(w, 'C%sKey' % NAME[ch])
        env.check((type(k) is cls) == (c == ch), 'key-class')
        env.check(type(cls.from_secret_bytes(payload[65:97])) is cls, 'explicit-key')
    env.check(k.secret_bytes == payload[65:97], 'key')
    if el:
        p = get_current_chain_params()
        env.check(p.RPC_PORT == (7041 if c == 'el' else 7042), 'port')
        env.check(p.get_datadir_extra_name() == ('elementsregtest' if c == 'el' else 'liquidv1'), 'data-dir')
        env.check(p.get_network_id() == ('elementsregtest' if c == 'el' else 'liquidv1'), 'network-id')


def secret(env):
    zkp.install(env)
    p = env.bytes('payload', 97)
    env.assume((p[65] != 0xff) & (p[96] != 0))
    return p


def run_generic(env, job):
    p = secret(env)
    for c in job['seq']:
        prev = get_current_chain_params().NAME
        old, new = select_chain_params(CHAIN[c])
        env.check(old.NAME == prev and new.NAME == CHAIN[c], 'selection')
        resolves(env, c, p)


class Left(Exception):
    pass


def run_nested(env, job):
    p = secret(env)
    a, b, c = job['seq']
    select(a)
    how = env.choose('left', ['normally', 'exception'])
    try:
        with ChainParams(CHAIN[b]):
            resolves(env, b, p)
            try:
                with ChainParams(CHAIN[c]):
                    resolves(env, c, p)
                    if how == 'exception':
                        raise Left()
            except Left:
                pass
            resolves(env, b, p)
            if how == 'exception':
                raise Left()
    except Left:
        pass
    resolves(env, a, p)
