"""address kinds of both chains, reference encodings, and an abstract base58"""
import bitcointx.base58
import bitcointx.segwit_addr
import elementstx.wallet as w
from bitcointx import select_chain_params
from harness.lib import dsha
from harness import refblech

CHAINS = {'el': 'elements', 'lq': 'elements/liquidv1'}
PLAIN = {'el': ([235], [75], 'ert'), 'lq': ([57], [39], 'ex')}
CONF = {'el': ([4, 235], [4, 75], 'el'), 'lq': ([12, 57], [12, 39], 'lq')}
NAME = {'el': 'Elements', 'lq': 'ElementsLiquidV1'}
SIZE = {'P2PKH': 20, 'P2SH': 20, 'P2WPKH': 20, 'P2WSH': 32, 'P2TR': 32}
TYPES = list(SIZE)


class Kind:
    """one concrete address class"""
    def __init__(self, chain, typ, conf):
        self.chain, self.typ, self.conf = chain, typ, conf
        self.name = '%s%s%sAddress' % (typ, NAME[chain], 'Confidential' if conf else '')
        self.size = SIZE[typ] + (33 if conf else 0)
        self.segwit = typ in ('P2WPKH', 'P2WSH', 'P2TR')
        self.version = 1 if typ == 'P2TR' else 0
        pkh, sh, self.hrp = (CONF if conf else PLAIN)[chain]
        self.prefix = bytes(pkh if typ == 'P2PKH' else sh)

    @property
    def cls(self):
        return getattr(w, self.name)

    def in_class(self, name):
        """whether the class of this name stands for this kind (among others)"""
        if name == self.name:
            return True
        n = NAME[self.chain]
        general = ['C%sAddress' % n]
        enc = 'Base58' if not self.segwit else ('Blech32' if self.conf else 'Bech32')
        if self.conf:
            general += ['C%sConfidentialAddress' % n, 'C%s%sConfidentialAddress' % (enc, n)]
            if enc == 'Base58':
                general.append('CBase58%sAddress' % n)
        else:
            general.append('C%s%sAddress' % (enc, n))
        return name in general

    def script(self, payload):
        h = payload[33:] if self.conf else payload
        if self.typ == 'P2PKH':
            return b'\x76\xa9\x14' + h + b'\x88\xac'
        if self.typ == 'P2SH':
            return b'\xa9\x14' + h + b'\x87'
        return bytes([0x51 if self.typ == 'P2TR' else 0, len(h)]) + h


KINDS = [Kind(c, t, f) for c in CHAINS for t in TYPES for f in (False, True)]
BY_NAME = {k.name: k for k in KINDS}
GENERAL = []
for _c in CHAINS:
    _n = NAME[_c]
    GENERAL += ['C%sAddress' % _n, 'C%sConfidentialAddress' % _n, 'CBase58%sAddress' % _n, 'CBase58%sConfidentialAddress' % _n,
                'CBech32%sAddress' % _n, 'CBlech32%sConfidentialAddress' % _n]
CLASSES = list(BY_NAME) + GENERAL


def setup(env, chain='el'):
    """select the chain; symbolically, base58 is an abstract one-to-one coding, whose texts are no (b)l/ech32 texts"""
    select_chain_params(CHAINS[chain])
    if env.sym:
        def decode(s):
            d = env.text_bytes(s)
            if d is None:
                raise bitcointx.base58.InvalidBase58Error('not a base58 text')
            return d
        bitcointx.base58.encode = env.text_token
        bitcointx.base58.decode = decode


def b58check(raw):
    return bitcointx.base58.encode(raw + dsha(raw)[:4])


def same_text(env, a, b):
    if env.sym:
        x, y = env.text_bytes(a), env.text_bytes(b)
        if x is not None or y is not None:
            return x is not None and y is not None and len(x) == len(y) and x == y
    return len(a) == len(b) and a == b


def ref_text(k, payload):
    if not k.segwit:
        return b58check(k.prefix + payload)
    if k.conf:
        return refblech.ref_encode(k.hrp, k.version, payload)
    return bitcointx.segwit_addr.encode(k.hrp, k.version, payload)
