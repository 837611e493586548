"""W06: private keys and extended keys as text"""
import bitcointx.base58
import bitcointx.core
from bitcointx.core.key import CKey, CPubKey
from bitcointx.wallet import CCoinKey, CCoinExtKey, CCoinExtPubKey, CCoinAddress, CCoinAddressError
import elementstx.wallet as w
from harness import zkp
from harness.addrlib import CHAINS, NAME, setup, b58check, same_text
from harness.blindlib import scalar
from bitcointx import select_chain_params

EXT = {('el', 'ExtKey'): b'\x04\x35\x83\x94', ('el', 'ExtPubKey'): b'\x04\x35\x87\xcf',
       ('lq', 'ExtKey'): b'\x04\x88\xad\xe4', ('lq', 'ExtPubKey'): b'\x04\x88\xb2\x1e'}
GENERIC = {'Key': CCoinKey, 'ExtKey': CCoinExtKey, 'ExtPubKey': CCoinExtPubKey}
BOUNDS = ('every private key (compressed or not), extended private key and extended public key of both Elements chains (all scalars '
          'below ff00.. that do not end in a zero byte, all chain codes, depths, fingerprints and child numbers), read by every key and '
          'extended key class and by the general address class of both chains, under both chain selections; every payload of 0..80 bytes '
          'under every prefix')
ASSUMPTIONS = ['base58 is modelled as an abstract one-to-one coding of byte strings', 'SHA-256 is collision free',
               'which byte strings are public keys is left open',
               'the private key prefix of Liquid is taken from the code: the repository has no other source for it']


def name_of(chain, what):
    return 'C%s%s' % (NAME[chain], what)


def wif_prefix(chain):
    # nothing in the repository but the class itself tells the one of Liquid
    return bytes([239]) if chain == 'el' else w.CElementsLiquidV1Key.base58_prefix


def jobs(tier):
    out = []
    for c in CHAINS:
        for comp in (True, False):
            out.append({'name': 'key-%s-%d' % (c, comp), 'op': 'key', 'chain': c, 'comp': comp, 'reach': ['read']})
        for what in ('ExtKey', 'ExtPubKey'):
            out.append({'name': '%s-%s' % (what, c), 'op': 'ext', 'chain': c, 'what': what, 'reach': ['read']})
        for n in range(81):
            out.append({'name': 'payload-%s-%d' % (c, n), 'op': 'payload', 'chain': c, 'n': n,
                        'reach': ['read'] if n in (32, 33, 74) else ['nothing']})
        out.append({'name': 'neuter-%s' % c, 'op': 'neuter', 'chain': c, 'reach': ['read']})
    return out


def refused(f, *a):
    """None when the call refuses its argument, and what it returns otherwise"""
    try:
        return f(*a)
    except zkp.Misuse:
        raise
    except (CCoinAddressError, bitcointx.core.AddressDataEncodingError, TypeError, ValueError):
        return None


def ext_payload(env, what, secret):
    """74 bytes: depth, fingerprint, child, chain code, key"""
    depth = env.int('depth', 0, 255)
    fp, child = env.bytes('fingerprint', 4), env.bytes('child', 4)
    env.assume((depth != 0) | ((fp == bytes(4)) & (child == bytes(4))))
    key = b'\x00' + secret if what == 'ExtKey' else bytes(CKey(secret).pub)
    return bytes([depth]) + fp + child + env.bytes('chain-code', 32) + key


def run(env, job):
    op, chain = job['op'], job['chain']
    setup(env, chain)
    lib = zkp.install(env, pubs_valid=True)
    if op == 'payload':
        return payloads(env, job, lib)
    secret = scalar(env, 'secret')
    if op == 'key':
        cls = getattr(w, name_of(chain, 'Key'))
        k = cls.from_secret_bytes(secret, job['comp'])
        payload = secret + (b'\x01' if job['comp'] else b'')
        env.check(same_text(env, str(k), b58check(wif_prefix(chain) + payload)), 'text')
        pub = CKey(secret, compressed=job['comp']).pub
        for sel in CHAINS:
            select_chain_params(CHAINS[sel])
            for x in (cls(str(k)), CCoinKey(str(k))):
                if type(x) is not cls:
                    env.check(sel != chain and type(x) is getattr(w, name_of(sel, 'Key')), 'class')
                env.check(x.secret_bytes == secret and x.is_compressed() is job['comp'], 'content')
                env.check(len(x.pub) == len(pub) and bytes(x.pub) == bytes(pub), 'public-key')
                env.check(len(bytes(x)) == len(payload) and bytes(x) == payload, 'payload')
            others(env, str(k), ('Key',), None)
        env.check(type(k.to_compressed()) is cls and k.to_compressed().is_compressed() is True, 'to-compressed')
        env.check(type(k.to_uncompressed()) is cls and k.to_uncompressed().is_compressed() is False, 'to-uncompressed')
        env.reach('read')
        return
    what = 'ExtKey' if op == 'neuter' else job['what']
    cls = getattr(w, name_of(chain, what))
    payload = ext_payload(env, what, secret)
    k = cls.from_bytes(payload)
    t = str(k)
    env.check(same_text(env, t, b58check(EXT[chain, what] + payload)), 'text')
    if op == 'neuter':
        n = k.neuter()
        env.check(type(n) is getattr(w, name_of(chain, 'ExtPubKey')), 'neutered-class')
        env.check(bytes(n)[:41] == payload[:41] and bytes(n)[41:] == bytes(CKey(secret).pub), 'neutered-payload')
        env.check(type(k.priv) is getattr(w, name_of(chain, 'Key')) and k.priv.secret_bytes == secret, 'private-key')
        env.check(same_text(env, str(n), b58check(EXT[chain, 'ExtPubKey'] + bytes(n))), 'neutered-text')
        env.reach('read')
        return
    for sel in CHAINS:
        select_chain_params(CHAINS[sel])
        x = cls(t)
        env.check(type(x) is cls and bytes(x) == payload, 'read-back')
        env.check(bytes(x.pub) == bytes(CKey(secret).pub), 'public-key')
        g = refused(GENERIC[what], t)
        if sel == chain:
            env.check(type(g) is cls and bytes(g) == payload, 'generic')
        else:
            env.check(g is None, 'other-chain-refused')
        others(env, t, (what,), chain)
    env.reach('read')


def others(env, t, what, chain):
    """all classes but those of the kind (and chain, when the text tells it) refuse the text"""
    for c in CHAINS:
        for x in ('Key', 'ExtKey', 'ExtPubKey'):
            if x in what and (chain is None or c == chain):
                continue
            env.check(refused(getattr(w, name_of(c, x)), t) is None, 'other-classes-refuse')
        env.check(refused(getattr(w, name_of(c, 'Address')), t) is None, 'no-address')
    env.check(refused(CCoinAddress, t) is None, 'no-address')


def payloads(env, job, lib):
    n, chain = job['n'], job['chain']
    raw = env.bytes('raw', n)
    if n >= 74:
        env.assume((raw[42] != 0xff) & (raw[73] != 0))
    elif n >= 32:
        env.assume((raw[0] != 0xff) & (raw[31] != 0))
    for what in ('Key', 'ExtKey', 'ExtPubKey'):
        prefix = wif_prefix(chain) if what == 'Key' else EXT[chain, what]
        t = b58check(prefix + raw)
        cls = getattr(w, name_of(chain, what))
        x = refused(cls, t)
        if what == 'Key':
            good = n == 32 or n == 33
            if n == 33:
                if x is not None:
                    env.check(x.is_compressed() == (raw[32] == 1), 'compressed')
        elif n != 74:
            good = False
        else:
            # the base library checks depth 0 of private keys only
            if what == 'ExtKey':
                good = (raw[41] == 0) & ((raw[0] != 0) | (raw[1:9] == bytes(8)))
            else:
                good = (raw[41] == 2) | (raw[41] == 3)
        env.check((x is not None) == good, 'accepted-exactly')
        if x is not None:
            env.check(type(x) is cls and bytes(x) == raw, 'content')
            env.reach('read')
    env.reach('nothing')
