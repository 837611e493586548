"""W03: addresses and their text form"""
import bitcointx.base58
import bitcointx.segwit_addr
from bitcointx.wallet import CCoinAddress, CCoinAddressError
import bitcointx.wallet
import elementstx.wallet as w
from elementstx import liquid_addr
from harness.addrlib import KINDS, BY_NAME, GENERAL, CLASSES, CHAINS, TYPES, NAME, setup, b58check, same_text, ref_text
from bitcointx import select_chain_params, ChainParams

BOUNDS = ('every payload of every one of the 20 address classes of both chains, read by all 20 classes, the 12 general classes of both '
          'chains, and the chain-independent classes under both chains; base58 payloads of 0..60 bytes with every prefix; blech32 '
          'programs of every admissible length (quick: 2, 20, 32, 33, 40, 52..54, 64..66, 73) and version (quick: 0, 1, 2, 5, 16)')
ASSUMPTIONS = ['base58 is modelled as an abstract one-to-one coding of byte strings; no bech32 or blech32 text is a base58 text with a '
               'matching checksum, and conversely',
               'SHA-256 is collision free']
COIN = ['P2PKHCoinAddress', 'P2SHCoinAddress', 'P2WPKHCoinAddress', 'P2WSHCoinAddress', 'P2TRCoinAddress']


def jobs(tier):
    out = []
    for k in KINDS:
        out.append({'name': 'text-' + k.name, 'op': 'text', 'kind': k.name, 'reach': ['text', 'accepted', 'refused']})
        out.append({'name': 'generic-' + k.name, 'op': 'generic', 'kind': k.name, 'reach': ['generic']})
    for n in range(61):
        out.append({'name': 'base58-%d' % n, 'op': 'base58', 'n': n, 'reach': ['read'] if n in (21, 55) else ['nothing']})
    lens = range(2, 74) if tier == 'thorough' else [2, 20, 32, 33, 40, 52, 53, 54, 64, 65, 66, 73]
    for n in lens:
        for c in CHAINS:
            out.append({'name': 'blech32-%s-%d' % (c, n), 'op': 'blech32', 'chain': c, 'n': n,
                        'versions': list(range(17)) if tier == 'thorough' else [0, 1, 2, 5, 16] if n in (53, 65) else [0, 1, 2, 16],
                        'reach': ['read'] if n in (53, 65) else ['nothing']})
    return out


def refused(f, *a):
    """None when the call refuses its argument, and what it returns otherwise"""
    try:
        return f(*a)
    except (CCoinAddressError, bitcointx.core.AddressDataEncodingError, TypeError, ValueError):
        return None


def judge(env, x, k, payload):
    env.check(type(x) is k.cls, 'class')
    env.check(len(x) == len(payload) and bytes(x) == payload, 'payload')
    env.check(x.to_bytes() == payload, 'to-bytes')


def run(env, job):
    op = job['op']
    setup(env, 'el')
    if op == 'text':
        k = BY_NAME[job['kind']]
        payload = env.bytes('payload', k.size)
        a = k.cls.from_bytes(payload)
        judge(env, a, k, payload)
        t = str(a)
        env.check(same_text(env, t, ref_text(k, payload)), 'text')
        env.reach('text')
        # whichever chain is selected
        sel = env.choose('selected', ['el', 'lq'])
        select_chain_params(CHAINS[sel])
        for name in CLASSES:
            x = refused(getattr(w, name), t)
            if k.in_class(name):
                # classes for one encoding dispatch only while their chain is selected
                if x is None and sel != k.chain and name[:3] in ('CBa', 'CBe', 'CBl'):
                    continue
                env.check(x is not None, 'accepted')
                judge(env, x, k, payload)
                env.check(same_text(env, str(x), t), 'same-text-again')
                env.reach('accepted')
            else:
                env.check(x is None, 'other-kinds-and-chains-refused')
                env.reach('refused')
    elif op == 'generic':
        k = BY_NAME[job['kind']]
        payload = env.bytes('payload', k.size)
        t = str(k.cls.from_bytes(payload))
        sel = env.choose('selected', ['el', 'lq'])
        select_chain_params(CHAINS[sel])
        x = refused(CCoinAddress, t)
        if sel == k.chain:
            env.check(x is not None, 'accepted')
            judge(env, x, k, payload)
        else:
            env.check(x is None, 'other-chain-refused')
        for typ in TYPES:
            for conf in (False, True):
                c = getattr(w, typ + 'CoinConfidentialAddress') if conf else getattr(bitcointx.wallet, typ + 'CoinAddress')
                x = refused(c, t)
                if sel == k.chain and typ == k.typ and conf == k.conf:
                    env.check(x is not None, 'accepted')
                    judge(env, x, k, payload)
                else:
                    env.check(x is None, 'other-kinds-refused')
        env.reach('generic')
    elif op == 'base58':
        # any text with a right checksum
        n = job['n']
        raw = env.bytes('raw', n)
        t = b58check(raw)
        sel = env.choose('selected', ['el', 'lq'])
        select_chain_params(CHAINS[sel])
        for c in CHAINS:
            x = refused(getattr(w, 'C%sAddress' % NAME[c]), t)
            want = None
            for k in KINDS:
                if k.chain == c and not k.segwit and n == len(k.prefix) + k.size and raw[:len(k.prefix)] == k.prefix:
                    want = k
            if want is None:
                env.check(x is None, 'not-an-address')
                env.reach('nothing')
            else:
                env.check(x is not None, 'accepted')
                judge(env, x, want, raw[len(want.prefix):])
                env.reach('read')
    else:
        n, c = job['n'], job['chain']
        v = env.choose('version', job['versions'])
        prog = env.bytes('program', n)
        t = liquid_addr.encode('el' if c == 'el' else 'lq', v, prog)
        if t is None:
            env.reach('nothing')
            return
        other = 'lq' if c == 'el' else 'el'
        for name in ('C%sAddress', 'C%sConfidentialAddress'):
            env.check(refused(getattr(w, name % NAME[other]), t) is None, 'other-chain')
            x = refused(getattr(w, name % NAME[c]), t)
            want = None
            for k in KINDS:
                if k.chain == c and k.conf and k.segwit and n == k.size and v == k.version:
                    want = k
            if want is None:
                env.check(x is None, 'not-an-address')
                env.reach('nothing')
            else:
                env.check(x is not None, 'accepted')
                judge(env, x, want, prog)
                env.reach('read')
