"""W05: scripts and sizes of addresses"""
import bitcointx.wallet
import elementstx.wallet as w
from bitcointx.core.script import CScript
from bitcointx.wallet import CCoinAddress, CCoinAddressError
from elementstx.core.script import CElementsScript
from harness.addrlib import KINDS, BY_NAME, CHAINS, TYPES, NAME, setup, Kind
from harness.lib import CElementsTxOut
from elementstx.core import CConfidentialAsset, CConfidentialNonce, CConfidentialValue
from bitcointx import select_chain_params

BOUNDS = ('every payload of all 20 address classes, both chains selected; scripts of 20..36 bytes of any content read as addresses by the '
          'general, concrete and confidential classes of both chains (thorough: 0..70)')
ASSUMPTIONS = []


def jobs(tier):
    out = []
    for k in KINDS:
        out.append({'name': 'script-' + k.name, 'op': 'script', 'kind': k.name, 'reach': ['script']})
        out.append({'name': 'size-' + k.name, 'op': 'size', 'kind': k.name, 'reach': ['size']})
    for n in (range(71) if tier == 'thorough' else [0, 1, 20, 21, 22, 23, 24, 25, 26, 33, 34, 35, 36]):
        for c in CHAINS:
            out.append({'name': 'read-%s-%d' % (c, n), 'op': 'read', 'chain': c, 'n': n,
                        'reach': ['address'] if n in (22, 23, 25, 34) else ['none']})
    return out


def attempt(f, *a):
    try:
        return f(*a)
    except (CCoinAddressError, TypeError, ValueError):
        return None


def redeem(a):
    try:
        return a.to_redeemScript()
    except NotImplementedError:
        return None


def run(env, job):
    setup(env, 'el')
    op = job['op']
    sel = env.choose('selected', ['el', 'lq'])
    select_chain_params(CHAINS[sel])
    if op == 'read':
        n, c = job['n'], job['chain']
        raw = env.bytes('script', n)
        spk = CElementsScript(raw)
        want = None
        for k in KINDS:
            if k.chain == c and not k.conf:
                pre = {'P2PKH': b'\x76\xa9\x14', 'P2SH': b'\xa9\x14', 'P2WPKH': b'\x00\x14', 'P2WSH': b'\x00\x20', 'P2TR': b'\x51\x20'}[k.typ]
                post = {'P2PKH': b'\x88\xac', 'P2SH': b'\x87'}.get(k.typ, b'')
                if n == len(pre) + k.size + len(post) and (raw[:len(pre)] == pre) & (raw[len(pre) + k.size:] == post):
                    want, h = k, raw[len(pre):len(pre) + k.size]
        x = attempt(getattr(w, 'C%sAddress' % NAME[c]).from_scriptPubKey, spk)
        if want is None:
            env.check(x is None, 'not-an-address')
        else:
            env.check(x is not None, 'address')
            env.check(type(x) is want.cls and len(x) == len(h) and bytes(x) == h, 'unconfidential-address')
            env.check(x.to_scriptPubKey() == raw, 'same-script')
        for k in KINDS:
            if k.chain != c:
                continue
            y = attempt(k.cls.from_scriptPubKey, spk)
            if want is not None and want.name == k.name:
                env.check(y is not None and type(y) is k.cls and bytes(y) == h, 'read-by-its-class')
            else:
                env.check(y is None, 'not-read-by-other-classes')
        if sel == c:
            y = attempt(CCoinAddress.from_scriptPubKey, spk)
            env.check((y is None) == (want is None), 'chain-independent-class')
            if want is not None:
                env.check(type(y) is want.cls and bytes(y) == h, 'chain-independent-class')
        env.reach('none' if want is None else 'address')
        return
    k = BY_NAME[job['kind']]
    payload = env.bytes('payload', k.size)
    a = k.cls.from_bytes(payload)
    spk = a.to_scriptPubKey()
    want = k.script(payload)
    env.check(isinstance(spk, CElementsScript), 'script-class')
    env.check(len(spk) == len(want) and spk == want, 'standard-script')
    if op == 'script':
        rs = redeem(a)
        h = payload[33:] if k.conf else payload
        if k.typ in ('P2PKH', 'P2WPKH'):
            ref = b'\x76\xa9\x14' + h + b'\x88\xac'
            env.check(rs is not None and len(rs) == len(ref) and rs == ref, 'redeem-script')
            env.check(isinstance(rs, CElementsScript), 'redeem-script-class')
        else:
            env.check(rs is None, 'no-redeem-script')
        u = a.to_unconfidential() if k.conf else a
        if k.conf:
            env.check(spk == u.to_scriptPubKey(), 'script-of-the-unconfidential-form')
            rs2 = redeem(u)
            env.check((rs is None) == (rs2 is None), 'redeem-script-of-the-unconfidential-form')
            if rs is not None:
                env.check(rs == rs2, 'redeem-script-of-the-unconfidential-form')
        b = getattr(w, 'C%sAddress' % NAME[k.chain]).from_scriptPubKey(spk)
        env.check(type(b) is type(u) and b == u, 'address-of-the-script')
        b = type(u).from_scriptPubKey(spk)
        env.check(type(b) is type(u) and b == u, 'address-of-the-script')
        if k.conf:
            for cls in (k.cls, getattr(w, 'C%sConfidentialAddress' % NAME[k.chain])):
                env.check(attempt(cls.from_scriptPubKey, spk) is None, 'no-confidential-address-from-script')
        env.reach('script')
    else:
        if k.conf:
            o = CElementsTxOut(nValue=CConfidentialValue(b'\x08' + env.bytes('v', 32)), nAsset=CConfidentialAsset(b'\x0a' + env.bytes('a', 32)),
                               nNonce=CConfidentialNonce(b'\x02' + env.bytes('n', 32)), scriptPubKey=spk)
        else:
            o = CElementsTxOut(nValue=CConfidentialValue(env.int('v', 0, 2**60)), scriptPubKey=spk)
        n = len(o.serialize())
        ref = (99 if k.conf else 11) + 1 + len(want)
        env.check(n == ref, 'encoded-length')
        env.check(k.cls.get_output_size() == n, 'size-of-the-class')
        env.check(a.get_output_size() == n, 'size-of-the-address')
        env.reach('size')
