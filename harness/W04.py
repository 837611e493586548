"""W04: converting between confidential and unconfidential addresses"""
import bitcointx.wallet
import elementstx.wallet as w
from bitcointx.core.key import CPubKey, CKey
from bitcointx.wallet import CCoinAddressError
from harness import zkp
from harness.addrlib import KINDS, BY_NAME, CLASSES, CHAINS, TYPES, NAME, setup, Kind
from bitcointx import select_chain_params

COIN = [t + 'CoinConfidentialAddress' for t in TYPES] + ['CCoinConfidentialAddress', 'CBase58CoinConfidentialAddress',
                                                         'CBlech32CoinConfidentialAddress']
BOUNDS = ('every payload of all 20 address classes as source, every valid blinding key as bytes, bytearray or key object, every invalid key '
          'of 0..70 bytes, all 20 concrete classes, the 12 general classes of both chains and the 8 chain-independent classes as target, '
          'both chains selected; also strings and raw bytes as source')
ASSUMPTIONS = ['public key validity is decided by a model of libsecp256k1 (harness/zkp.py): any 33-byte key with prefix 2 or 3 may be valid']


def jobs(tier):
    out = []
    for k in KINDS:
        if not k.conf:
            out.append({'name': 'convert-' + k.name, 'op': 'convert', 'kind': k.name, 'reach': ['converted', 'refused']})
            for n in (range(71) if tier == 'thorough' else (0, 1, 20, 32, 33, 34, 53, 64, 65, 66)):
                out.append({'name': 'invalid-%s-%d' % (k.name, n), 'op': 'invalid', 'kind': k.name, 'n': n, 'reach': ['refused']})
            out.append({'name': 'uncompressed-' + k.name, 'op': 'uncompressed', 'kind': k.name, 'reach': ['refused']})
        else:
            out.append({'name': 'back-' + k.name, 'op': 'back', 'kind': k.name, 'reach': ['back']})
        out.append({'name': 'source-' + k.name, 'op': 'source', 'kind': k.name, 'reach': ['refused']})
    return out


def attempt(f, *a):
    try:
        return f(*a)
    except (CCoinAddressError, TypeError, ValueError):
        return None


def target(name):
    return getattr(w, name)


def wanted(k, name):
    """the confidential kind that class `name` makes from an unconfidential address of kind k, if any"""
    c = Kind(k.chain, k.typ, True)
    return c if c.in_class(name) and 'Confidential' in name else None


def key(env, valid=True):
    """a compressed public key of either parity"""
    p = bytes([2 | env.int('parity', 0, 1)]) + env.bytes('key', 32)
    return p


def judge(env, c, k, a, payload, pub):
    env.check(type(c) is k.cls, 'class')
    env.check(len(c) == 33 + len(payload) and bytes(c) == pub + payload, 'payload')
    u = c.to_unconfidential()
    env.check(type(u) is BY_NAME[k.name.replace('Confidential', '')].cls, 'unconfidential-class')
    env.check(len(u) == len(payload) and bytes(u) == payload, 'unconfidential-payload')
    if a is not None:
        env.check(u == a, 'unconfidential-is-the-original')
    b = c.blinding_pubkey
    env.check(isinstance(b, CPubKey) and len(b) == 33 and b == pub, 'blinding-key')


def run(env, job):
    setup(env, 'el')
    op = job['op']
    zkp.install(env, pubs_valid=op != 'invalid')
    k = BY_NAME[job['kind']]
    payload = env.bytes('payload', k.size)
    a = k.cls.from_bytes(payload)
    sel = env.choose('selected', ['el', 'lq'])
    select_chain_params(CHAINS[sel])
    if op == 'convert':
        pub = key(env)
        form = env.choose('form', ['bytes', 'bytearray', 'key'])
        given = {'bytes': pub, 'bytearray': bytearray(pub), 'key': CPubKey(pub)}[form]
        for name in CLASSES:
            cls = target(name)
            if not hasattr(cls, 'from_unconfidential'):
                env.check('Confidential' not in name, 'conversion-offered')
                continue
            want = wanted(k, name)
            c = attempt(cls.from_unconfidential, a, given)
            if want is None:
                env.check(c is None, 'other-classes-refuse')
                env.reach('refused')
            else:
                env.check(c is not None, 'converted')
                judge(env, c, want, a, payload, pub)
                env.reach('converted')
        for name in COIN:
            c = attempt(target(name).from_unconfidential, a, given)
            if c is not None:
                # a chain-independent class stands for the one of the selected chain
                env.check(sel == k.chain, 'only-for-the-selected-chain')
                judge(env, c, Kind(k.chain, k.typ, True), a, payload, pub)
                typ = name.partition('Coin')[0]
                env.check(typ == k.typ or typ == 'C' or (typ == 'CBase58') == (not k.segwit), 'kind-of-the-class')
            else:
                env.check(sel != k.chain or not (name.startswith(k.typ + 'Coin') or name == 'CCoinConfidentialAddress'
                                                 or name == ('CBlech32' if k.segwit else 'CBase58') + 'CoinConfidentialAddress'),
                          'chain-independent-class-accepts')
    elif op in ('invalid', 'uncompressed'):
        n = 65 if op == 'uncompressed' else job['n']
        pub = env.bytes('key', n)
        if op == 'uncompressed':
            env.assume(pub[0] == 4)
        form = env.choose('form', ['bytes', 'bytearray', 'key'])
        given = {'bytes': pub, 'bytearray': bytearray(pub), 'key': CPubKey(pub)}[form]
        for name in CLASSES:
            cls = target(name)
            if hasattr(cls, 'from_unconfidential'):
                env.check(attempt(cls.from_unconfidential, a, given) is None, 'invalid-key-refused')
        env.reach('refused')
    elif op == 'back':
        c = BY_NAME[k.name]
        judge(env, a, c, None, payload[33:], payload[:33])
        u = a.to_unconfidential()
        if (payload[0] == 2) | (payload[0] == 3):
            again = c.cls.from_unconfidential(u, a.blinding_pubkey)
            env.check(type(again) is c.cls and again == a, 'converted-back')
        env.reach('back')
    else:
        # what is no unconfidential address of the class
        pub = key(env)
        sources = [bytes(payload), payload[:20], bytearray(payload), None, 5, [payload]]
        if k.conf:
            sources = [a]
        for name in CLASSES + COIN:
            cls = target(name) if hasattr(w, name) else None
            if cls is None or not hasattr(cls, 'from_unconfidential'):
                continue
            for src in sources:
                env.check(attempt(cls.from_unconfidential, src, pub) is None, 'source-refused')
            for bad in (None, 5, 'x' * 33, [pub]):
                env.check(attempt(cls.from_unconfidential, a, bad) is None, 'key-type-refused')
        env.reach('refused')
