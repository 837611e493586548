"""scenes for blinding: a transaction, its input descriptors and keys, and what blinding must turn it into

A scene is written as lists of short words.
inputs:  <kind>[/<issuance>]  kind: b = both blinding factors, v = only the value factor, a = only the asset factor, p = none,
         s = any factors, u = asset unknown (given by an auxiliary generator); = appended: the asset of the first input;
         ^<k> / ~<k> appended: the asset / token issued by input k
         issuance: n = new, r = reissuance, then A / T = amount / inflation keys present, a / t = to be blinded
outputs: B<k> = to be blinded, its asset is that of target k; B = an asset that is no target; K = explicit, kept;
         C = already confidential, kept; F = fee; a suffix e / r / o makes the script empty / start with OP_RETURN / anything; z: anything, and the amount zero only if
unspendable"""
from harness.lib import (Spec, CElementsMutableTransaction, mk_tx, dsha, null_issuance, Uint256)
from harness import refsha, zkp
COIN = 100000000
from bitcointx.core.key import CKey, CPubKey
from elementstx.core import BlindingInputDescriptor, CAsset

MAX = 21000000 * COIN
ZERO = bytes(32)


def scalar(env, name, tags=None):
    """a random scalar; nearly all values.  With tags, a list, the second byte differs from that of all other scalars"""
    s = env.bytes(name, 32)
    if tags is not None:
        tags.append(name)
        env.assume(s[1] == len(tags))
        s = s[:1] + bytes([len(tags)]) + s[2:]
    env.assume((s[0] != 0xff) & (s[31] != 0))
    return s


def ref_entropy(i):
    return refsha.midstate(dsha(i.hash + i.n.to_bytes(4, 'little')) + i.iss.entropy)


def ref_asset(e):
    return refsha.midstate(e + ZERO)


def ref_token(e, conf):
    return refsha.midstate(e + bytes([2 if conf else 1]) + bytes(31))


def explicit(a):
    return b'\x01' + a.to_bytes(8, 'big')


SHAPES = [
    # inputs, outputs, auxiliary
    (['b'], ['B0'], None),
    (['b'], ['B0', 'F'], None),
    (['b'], ['B0', 'B0', 'F'], None),
    (['b'], ['K', 'B0', 'C', 'B0'], None),
    (['v'], ['B0', 'B0'], None),
    (['a'], ['B0', 'K'], None),
    (['p'], ['B0', 'B0'], None),
    (['p'], ['B0', 'B0', 'B0'], None),
    (['p', 'p'], ['B1', 'F', 'B0'], None),
    (['b', 'b'], ['B1', 'B0', 'F'], None),
    (['b', 'p', 'b'], ['B2', 'B0', 'B1'], None),
    (['p', 'v', 'a'], ['B0', 'K', 'B2'], None),
    (['b/nATat'], ['B0', 'B1', 'B2'], None),
    (['p/nATat'], ['B1', 'B2'], None),
    (['p/nAa'], ['B1'], None),
    (['p/nATt'], ['B1', 'B2'], None),
    (['b/nATa'], ['B0', 'F'], None),
    (['b/nTt'], ['B1', 'B0'], None),
    (['b/rAa'], ['B1', 'B0'], None),
    (['p', 'b/rAa'], ['B2', 'B1', 'K'], None),
    (['p/nAa', 'b/nATat'], ['B1', 'B3', 'B0'], None),
    (['u', 'p'], ['K', 'B1'], 0),
    (['b', 'u'], ['B0', 'F', 'B0'], 1),
    (['s'], ['B0', 'B0'], None),
    (['s', 's'], ['B0', 'B1'], None),
    (['b', 'b', 'b', 'b'], ['B0', 'B1', 'B2', 'B3', 'F'], None),
    (['s', 's', 's'], ['B0', 'B1', 'B2', 'K'], None),
    (['b/nATat', 'v/rAa', 'p/nATat'], ['B1', 'B2', 'B4', 'B6', 'F'], 2),
    (['p/nATat', 'p/nATat'], ['B1', 'B2', 'B4', 'B5'], None),
    (['b~0/rAa'], ['B1', 'B0', 'F'], None),
    (['v^1', 'b~1/rAa'], ['B0', 'B2', 'B1'], None),
    (['b'], ['B0'] * 6, None),
    (['b'] * 6, ['B0', 'F'], None),
]


def shape_jobs(tier, reach, more=()):
    out = []
    shapes = list(SHAPES) + list(more)
    if tier == 'thorough':
        kinds = ['b', 'v', 'a', 'p', 's', 'b/nAa', 'p/nATat', 'p/nATt', 'v/nATa', 'b/rAa', 'p/nTt', 'a/nT', 'p/rA', 'u']
        for x in kinds:
            for y in kinds:
                if x == 'u' and y == 'u':
                    continue
                t0 = 0 if x != 'u' else 1
                t1 = sum(1 for c in x if c in 'AT') + (1 if y != 'u' else 0)
                aux = None if 'u' not in (x, y) else 0
                shapes.append(([x, y], ['B%d' % t0, 'B%d' % t1], aux))
                shapes.append(([x, y], ['K', 'B%d' % t1, 'F', 'B%do' % t0, 'C'], aux))
    for k, (i, o, a) in enumerate(shapes):
        out.append({'name': 'shape-%d' % k, 'ins': i, 'outs': o, 'aux': a, 'reach': reach})
    return out


class Scene:
    pass


def scene(env, ins, outs, aux=0, script=3, wit=False, distinct=True, tags=None):
    """aux: number of auxiliary generators beyond the inputs (None: none at all)"""
    s = Scene()
    s.tags_ = tags
    t = s.t = Spec(version=2, locktime=env.int('locktime', 0, 2**32 - 1), vin=[], vout=[], inwit=[], outwit=[])
    s.rand = []
    s.desc, s.akeys, s.tkeys, s.keys = [], [], [], []
    s.ins, s.outs = [], []
    s.aux = []
    if aux is None and any(w[0] == 'u' for w in ins):
        raise ValueError('scene')
    if aux is not None:
        for k in range(len(ins) + aux):
            d = bytes([10 | env.int('aux-parity', 0, 1)]) + env.bytes('aux', 32)
            s.aux.append(d)
    s.tags, s.gens, s.tblind, s.what = [], [], [], []
    issues = []
    for k, w in enumerate(ins):
        iss = w.partition('/')[2]
        i = Spec(hash=env.bytes('in-hash', 32), n=env.int('in-n', 0, 0x3ffffffe), script=b'', seq=env.int('in-seq', 0, 0xffffffff),
                 iss=null_issuance(), pegin=False)
        y = Spec()
        if iss:
            i.iss = Spec(blinding_nonce=ZERO if iss[0] == 'n' else env.bytes('iss-nonce', 32), entropy=env.bytes('iss-entropy', 32),
                         amount=b'', keys=b'')
            if iss[0] == 'r':
                env.assume(i.iss.blinding_nonce[0] != 0)
            y.entropy = ref_entropy(i) if iss[0] == 'n' else i.iss.entropy
            y.iasset = ref_asset(y.entropy)
            y.token = ref_token(y.entropy, 't' in iss)
            env.assume((y.iasset[0] != 0) & (y.token[0] != 0))
        issues.append(y)
        t.vin.append(i)
    for k, w in enumerate(ins):
        kind, _, iss = w.partition('/')
        i = t.vin[k]
        x = Spec(kind=kind[0], amount=env.int('in-amount', 0, MAX), asset=None, bf=ZERO, abf=ZERO, iss=iss)
        dup = kind[1:2]
        if dup == '=':
            x.asset = s.ins[0].asset
        elif dup == '^':
            x.asset = issues[int(kind[2:])].iasset
        elif dup == '~':
            x.asset = issues[int(kind[2:])].token
        else:
            x.asset = env.bytes('in-asset', 32)
        kind = kind[0]
        if kind in ('b', 'v', 'u'):
            x.bf = scalar(env, 'in-bf', tags)
        if kind in ('b', 'a', 'u'):
            x.abf = scalar(env, 'in-abf', tags)
        if kind == 's':
            x.bf, x.abf = env.bytes('in-bf', 32), env.bytes('in-abf', 32)
            env.assume((x.bf[0] != 0xff) & (x.abf[0] != 0xff))
        if kind == 'u':
            x.asset = ZERO
            s.gens.append(zkp.parse_gen(s.aux[k]))
        else:
            env.assume(x.asset[0] != 0)
            s.gens.append(zkp.gen64(x.asset, x.abf))
        s.tags.append(x.asset)
        s.tblind.append(x.abf)
        s.what.append(('in', k))
        akey = tkey = None
        if iss:
            if 'A' in iss:
                x.iamount = env.int('iss-amount', 0, MAX)
                i.iss.amount = explicit(x.iamount)
            if 'T' in iss:
                x.tamount = env.int('iss-keys', 0, MAX)
                i.iss.keys = explicit(x.tamount)
            x.entropy, x.iasset, x.token = issues[k].entropy, issues[k].iasset, issues[k].token
            if 'a' in iss:
                akey = scalar(env, 'akey', tags)
            if 't' in iss:
                tkey = scalar(env, 'tkey', tags)
            if 'A' in iss:
                s.tags.append(x.iasset)
                s.gens.append(zkp.gen64(x.iasset, ZERO))
                s.tblind.append(ZERO)
                s.what.append(('asset', k))
            if 'T' in iss:
                s.tags.append(x.token)
                s.gens.append(zkp.gen64(x.token, ZERO))
                s.tblind.append(ZERO)
                s.what.append(('token', k))
        x.akey, x.tkey = akey, tkey
        s.akeys.append(akey and CKey(akey))
        s.tkeys.append(tkey and CKey(tkey))
        s.ins.append(x)
        t.inwit.append(Spec(amount_proof=b'', keys_proof=b'', stack=[env.bytes('wit', 2)] if wit else [], pegin_stack=[]))
        s.desc.append(BlindingInputDescriptor(asset=CAsset(x.asset), amount=x.amount, blinding_factor=Uint256(x.bf),
                                              asset_blinding_factor=Uint256(x.abf)))
    for k in range(len(ins), len(s.aux)):
        s.tags.append(ZERO)
        s.gens.append(zkp.parse_gen(s.aux[k]))
        s.tblind.append(ZERO)
        s.what.append(('aux', k))
    s.pubs = []
    for k, w in enumerate(outs):
        kind, rest = w[0], w[1:]
        suffix = rest[-1:] if rest[-1:].isalpha() else ''
        num = rest[:len(rest) - len(suffix)]
        if kind == 'F' or suffix == 'e':
            spk = b''
        elif suffix == 'r':
            spk = b'\x6a' + env.bytes('out-script', script - 1)
        else:
            spk = env.bytes('out-script', script)
            if suffix not in ('o', 'z'):
                env.assume(spk[0] != 0x6a)
        spend = kind == 'B' and suffix not in ('e', 'r', 'z')
        amount = env.int('out-amount', 1 if spend else 0, MAX)
        if suffix == 'z' and len(spk) <= 10000:
            env.assume((amount != 0) | (spk[0] == 0x6a))
        o = Spec(nonce=b'', script=spk, value=explicit(amount))
        dup = kind.endswith('=')
        kind = kind[0]
        x = Spec(kind=kind, amount=amount, key=None, target=None, unspendable=suffix in ('e', 'r'), asset=None)
        pub = CPubKey()
        if kind == 'B':
            if num:
                x.target = int(num)
                x.asset = s.tags[x.target]
            else:
                x.asset = env.bytes('out-asset', 32)
                for g in s.tags:
                    env.assume(x.asset != g)
            key = scalar(env, 'out-key', tags)
            x.secret = key
            x.key = CKey(key)
            pub = x.key.pub
            o.asset = b'\x01' + x.asset
        elif kind == 'C':
            o.value = bytes([8 | env.int('out-parity', 0, 1)]) + env.bytes('out-commit', 32)
            o.asset = bytes([10 | env.int('out-parity', 0, 1)]) + env.bytes('out-acommit', 32)
            o.nonce = bytes([2 | env.int('out-parity', 0, 1)]) + env.bytes('out-nonce', 32)
        else:
            o.asset = b'\x01' + env.bytes('out-asset', 32)
        s.pubs.append(pub)
        s.outs.append(x)
        t.vout.append(o)
        t.outwit.append(Spec(surjection=b'', rangeproof=b''))
    if distinct:
        for a in range(len(s.tags)):
            for b in range(a):
                if (s.what[a][0] == 'in' and s.what[b][0] == 'in' and s.tags[a] is not s.tags[b]
                        and 'u' not in (s.ins[s.what[a][1]].kind, s.ins[s.what[b][1]].kind)):
                    env.assume(s.tags[a] != s.tags[b])
    s.tx = mk_tx(t, mutable=True)
    return s


def random_source(env, s):
    def rand(n):
        if n != 32:
            env.fail('random-data-size')
        r = scalar(env, 'rand', s.tags_)
        s.rand.append(r)
        return r
    return rand


def last_key(keys, empty):
    """the list without trailing entries that mean nothing"""
    n = len(keys)
    while n and empty(keys[n - 1]):
        n -= 1
    return keys[:n]


def blind(env, s, trim=False, **kw):
    a = dict(input_descriptors=s.desc, output_pubkeys=s.pubs, blind_issuance_asset_keys=s.akeys, blind_issuance_token_keys=s.tkeys,
             auxiliary_generators=[bytearray(g) if k & 1 and isinstance(g, bytes) else g for k, g in enumerate(s.aux)],
             _rand_func=random_source(env, s))
    if trim:
        a['output_pubkeys'] = last_key(s.pubs, lambda p: len(p) == 0)
        a['blind_issuance_asset_keys'] = last_key(s.akeys, lambda p: p is None)
        a['blind_issuance_token_keys'] = last_key(s.tkeys, lambda p: p is None)
    a.update(kw)
    return s.tx.blind(**a)


def requested(s):
    n = sum(1 for o in s.outs if o.kind == 'B')
    return n + sum(('a' in i.iss[1:]) + ('t' in i.iss[1:]) for i in s.ins)
