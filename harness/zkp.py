"""A functional model of the parts of libsecp256k1-zkp that the code calls.

Points, commitments and proofs are injective abstract functions of what they are made of (written as SHA-256 values, which the
engine keeps abstract); rewinding and verification answer from the record of what was proved.  The same code runs with symbolic
data and, in a replay, with concrete data and the real ctypes, where the order-n arithmetic of the balancing primitive is real.
Arguments are checked against the argtypes that the code under test declares."""
import ctypes
import hashlib
import bitcointx.util
import bitcointx.core.secp256k1
import elementstx.util
import elementstx.core.secp256k1

N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
MODEL = hasattr(ctypes, 'read_ptr')


class Misuse(Exception):
    """a call that the C library would answer with undefined behaviour"""


def H(tag, *parts):
    return hashlib.sha256(tag + b''.join(parts)).digest()


def be(x, n):
    return x.to_bytes(n, 'big')


# the functions of the proof modules that report failure by returning 0
FALLIBLE = ('generator_parse', 'generator_generate', 'generator_generate_blinded', 'generator_serialize', 'pedersen_commit',
            'pedersen_commitment_parse', 'pedersen_commitment_serialize', 'pedersen_blind_generator_blind_sum', 'rangeproof_sign',
            'rangeproof_rewind', 'rangeproof_info', 'surjectionproof_allocate_initialized', 'surjectionproof_generate',
            'surjectionproof_verify', 'surjectionproof_serialize')


INTS = (ctypes.c_int, ctypes.c_uint, ctypes.c_long, ctypes.c_ulong, ctypes.c_int64, ctypes.c_uint64, ctypes.c_size_t,
        ctypes.c_ubyte, ctypes.c_byte)


def passed(t, a):
    """what the function receives for an argument declared as of type t: integers are cut to the declared width"""
    t.from_param(a)
    if any(t is i for i in INTS) and not hasattr(a, 'value'):
        return t(a).value
    return a


def by_reference(t, a):
    """what is behind a pointer argument, however the pointer was written"""
    if hasattr(a, 'contents'):
        return ctypes.byref(a.contents)
    el = getattr(t, 'el', None) or getattr(t, '_type_', None)
    if any(el is i for i in INTS) and isinstance(a, el):
        return ctypes.byref(a)
    return a


class Fn:
    def __init__(self, name, f, lib):
        self.name, self.f, self.lib = name, f, lib
        self.argtypes = None
        self.restype = ctypes.c_int
        self.errcheck = None

    def __call__(self, *args):
        if self.argtypes is None:
            raise Misuse('%s called without declared argument types' % self.name)
        if len(args) != len(self.argtypes):
            raise Misuse('%s called with %d arguments' % (self.name, len(args)))
        args = [by_reference(t, a) if not any(t is i for i in INTS) else a for t, a in zip(self.argtypes, args)]
        if self.lib.inspect is not None:
            self.lib.inspect(self, args)
        args = [passed(t, a) for t, a in zip(self.argtypes, args)]
        if self.lib.fault is not None and self.name in FALLIBLE and self.lib.fault(self.name):
            r = 0
        else:
            r = self.f(*args)
        return r if self.restype is not None else None


def rd(x, n):
    """n bytes read through a char pointer"""
    if x is None:
        raise Misuse('null pointer')
    if isinstance(x, bytes):
        d = x
    else:
        x = getattr(x, '_obj', x)
        d = x.raw
    if len(d) < n:
        raise Misuse('read of %d bytes from a buffer of %d' % (n, len(d)))
    return bytes(d[:n])


def wr(x, data):
    if isinstance(x, bytes) or x is None:
        raise Misuse('write into an immutable object')
    x = getattr(x, '_obj', x)
    if len(x) < len(data):
        raise Misuse('write of %d bytes into a buffer of %d' % (len(data), len(x)))
    x[0:len(data)] = data


def iv(x, bits=64):
    v = getattr(x, 'value', x)
    return v & ((1 << bits) - 1)


def rd_ptr(arr, i, n):
    if MODEL:
        return bytes(ctypes.read_ptr(arr, i, n))
    p = ctypes.cast(arr, ctypes.POINTER(ctypes.c_void_p))[i]
    if not p:
        raise Misuse('null pointer')
    return ctypes.string_at(p, n)


def wr_ptr(arr, i, data):
    if MODEL:
        ctypes.write_ptr(arr, i, data)
        return
    ctypes.memmove(ctypes.cast(arr, ctypes.POINTER(ctypes.c_void_p))[i], data, len(data))


def pointee(arr, i):
    """the object an element of an array of char pointers points to"""
    if MODEL:
        return ctypes.pointee(arr, i)
    x = (arr._objects or {}).get('%x' % i)
    while isinstance(x, dict):
        x = [y for y in x.values()][0]
    return x


def valid_scalar(s):
    """s < n; cheap test first"""
    if s[0] < 0xff:
        return True
    return int.from_bytes(s, 'big') < N


def nonzero(s):
    if s[31] != 0:
        return True
    return s != bytes(32)


class Lib:
    def __init__(self, env, zero_last=False, rewind=None, parse_fails=False, generate_fails=False, surj_fails=(), pubs_valid=None,
                 fault=None, info=None, xonly=False, inspect=None, proof_len=37, surj_len=39):
        self.env = env
        self.inspect = inspect
        self.PROOF_LEN, self.SURJ_LEN = proof_len, surj_len
        self.zero_last = zero_last
        self.rewind_hook = rewind
        self.fault = fault
        self.tweaked = []
        self.tweak_fails = False
        self.info_hook = info
        self.parse_fails = parse_fails
        self.generate_fails = generate_fails
        self.surj_fails = surj_fails
        self.pubs = []          # (secret, x)
        self.pub_known = []     # (encoding, verdict)
        self.pubs_valid = pubs_valid
        self.proofs = []        # range proofs: dicts
        self.surj = []          # surjection proofs: dicts
        self.outcomes = []      # (what, verdict) of the calls that may fail
        self.sums = []          # calls of the balancing primitive
        self.commits = []       # (blind, value, gen, commitment)
        self.parsed = []        # generator encodings that were parsed, with the verdict
        for k in dir(type(self)):
            if k.startswith('f_'):
                setattr(self, 'secp256k1_' + k[2:], Fn(k[2:], getattr(self, k), self))
            elif xonly and k.startswith('x_'):
                setattr(self, 'secp256k1_' + k[2:], Fn(k[2:], getattr(self, k), self))

    # -- contexts ------------------------------------------------------------
    def f_context_create(self, flags):
        return ctypes.c_void_p(1)

    def f_context_randomize(self, ctx, seed):
        return 1

    def f_context_set_illegal_callback(self, ctx, f, data):
        return None

    # -- keys ------------------------------------------------------------------
    def f_ec_seckey_verify(self, ctx, s):
        s = rd(s, 32)
        return 1 if valid_scalar(s) and nonzero(s) else 0

    def pub_x(self, s):
        """point of a secret; different secrets have different points"""
        for t, x in self.pubs:
            if s is t:
                return x
        x = H(b'point', s)
        self.pubs.append((s, x))
        return x

    def f_ec_pubkey_create(self, ctx, out, s):
        s = rd(s, 32)
        if not (valid_scalar(s) and nonzero(s)):
            return 0
        wr(out, enc64(self.pub_x(s)))
        return 1

    def f_ec_pubkey_serialize(self, ctx, out, plen, pub, flags):
        d = rd(pub, 64)
        plen = plen._obj
        if iv(flags, 32) == 258:
            r = bytes([2 | d[32]]) + d[:32]
        else:
            r = b'\x04' + d[:32] + H(b'y', d[:33])
        if plen.value < len(r):
            raise Misuse('public key buffer too small')
        wr(out, r)
        plen.value = len(r)
        return 1

    def f_ec_pubkey_parse(self, ctx, out, data, n):
        n = iv(n)
        if n not in (33, 65):
            return 0
        d = rd(data, n)
        if not self.pub_ok(d):
            return 0
        if n == 33:
            wr(out, d[1:] + bytes([d[0] & 1]) + bytes(31))
        else:
            wr(out, d[1:33] + bytes([d[64] & 1]) + bytes(31))
        return 1

    def pub_ok(self, d):
        for s, x in self.pubs:
            if len(d) == 33 and self.env.certain((d[1:] == x) & (d[0] == 2 | (d[32] & 1))):
                return True
        for e, ok in self.pub_known:
            if len(e) == len(d) and self.env.certain(e == d):
                return ok
        if len(d) == 33:
            ok = (d[0] == 2) | (d[0] == 3)
        else:
            ok = (d[0] == 4) | (d[0] == 6) | (d[0] == 7)
        ok = bool(ok)
        if ok:
            ok = self.outcome('on curve') if self.pubs_valid is None else self.pubs_valid
        self.pub_known.append((d, ok))
        return ok

    def shared(self, pub, s):
        """Diffie-Hellman value, the same from both sides"""
        self.pub_x(s)
        mine = other = None
        for k, (t, x) in enumerate(self.pubs):
            if mine is None and (t is s or self.env.certain(t == s)):
                mine = k
        for k, (t, x) in enumerate(self.pubs):
            if other is None and self.env.certain(same(pub, enc64(x))):
                other = k
        if other is None:
            return H(b'shared-unknown', pub, s)
        a, b = min(mine, other), max(mine, other)
        return H(b'shared', self.pubs[a][0], self.pubs[b][0])

    def f_ecdh(self, ctx, out, pub, s, fn, data):
        pub = rd(pub, 64)
        s = rd(s, 32)
        if not (valid_scalar(s) and nonzero(s)):
            return 0
        wr(out, self.shared(pub, s))
        return 1

    # -- x-only keys (present on request) ----------------------------------------------
    def x_xonly_pubkey_parse(self, ctx, out, data):
        d = rd(data, 32)
        for e, ok in self.pub_known:
            if len(e) == 32 and self.env.certain(e == d):
                break
        else:
            # results of tweaking are on the curve
            ok = True if any(self.env.certain(d == x) for x in self.tweaked) else self.pubs_valid
            if ok is None:
                ok = self.outcome('on curve')
            self.pub_known.append((d, ok))
        if not ok:
            return 0
        wr(out, d + bytes(32))
        return 1

    def x_xonly_pubkey_tweak_add(self, ctx, out, pub, tweak):
        p, t = rd(pub, 64), rd(tweak, 32)
        if self.tweak_fails and not self.outcome('tweak'):
            return 0
        q = tweak64(p[:32], t)
        self.tweaked.append(q[:32])
        wr(out, q)
        return 1

    def x_xonly_pubkey_from_pubkey(self, ctx, out, parity, pub):
        p = rd(pub, 64)
        wr(out, p[:32] + bytes(32))
        if parity is not None:
            parity._obj.value = p[32]
        return 1

    def x_xonly_pubkey_serialize(self, ctx, out, pub):
        wr(out, rd(pub, 64)[:32])
        return 1

    def x_xonly_pubkey_tweak_add_check(self, ctx, x, parity, pub, tweak):
        q = tweak64(rd(pub, 64)[:32], rd(tweak, 32))
        return 1 if (rd(x, 32) == q[:32]) & (iv(parity, 32) == q[32]) else 0

    def x_keypair_create(self, *a):
        raise Misuse('unexpected call')

    x_keypair_xonly_pub = x_keypair_xonly_tweak_add = x_keypair_create

    # -- generators --------------------------------------------------------------
    def outcome(self, name):
        ok = self.env.choose(name, [True, False])
        self.outcomes.append((name, ok))
        return ok

    def f_generator_generate(self, ctx, out, asset):
        if self.generate_fails and not self.outcome('generator made'):
            return 0
        wr(out, gen64(rd(asset, 32), bytes(32)))
        return 1

    def f_generator_generate_blinded(self, ctx, out, asset, blind):
        blind = rd(blind, 32)
        if not valid_scalar(blind):
            return 0
        if self.generate_fails and not self.outcome('generator made'):
            return 0
        wr(out, gen64(rd(asset, 32), blind))
        return 1

    def f_generator_serialize(self, ctx, out, gen):
        wr(out, ser_gen(rd(gen, 64)))
        return 1

    def f_generator_parse(self, ctx, out, data):
        d = rd(data, 33)
        ok = bool((d[0] == 10) | (d[0] == 11))
        if ok and self.parse_fails:
            ok = self.outcome('generator parses')
        self.parsed.append((d, ok))
        if not ok:
            return 0
        wr(out, parse_gen(d))
        return 1

    # -- commitments ---------------------------------------------------------------
    def f_pedersen_commit(self, ctx, out, blind, value, gen):
        blind, gen, value = rd(blind, 32), rd(gen, 64), iv(value)
        if not valid_scalar(blind):
            return 0
        c = commit64(blind, value, gen)
        self.commits.append((blind, value, gen, c))
        wr(out, c)
        return 1

    def f_pedersen_commitment_serialize(self, ctx, out, c):
        wr(out, ser_commit(rd(c, 64)))
        return 1

    def f_pedersen_commitment_parse(self, ctx, out, data):
        d = rd(data, 33)
        ok = bool((d[0] == 8) | (d[0] == 9))
        if ok and self.parse_fails:
            ok = self.outcome('commitment parses')
        if not ok:
            return 0
        wr(out, d[1:] + bytes([d[0] & 1]) + bytes(31))
        return 1

    def f_pedersen_blind_generator_blind_sum(self, ctx, values, gblinds, blinds, n, nin):
        n, nin = iv(n), iv(nin)
        if not n or nin > n:
            raise Misuse('blind sum of %d with %d inputs' % (n, nin))
        if len(values) < n or len(gblinds) < n or len(blinds) < n:
            raise Misuse('arrays shorter than their declared length')
        v = [values[i] for i in range(n)]
        g = [rd_ptr(gblinds, i, 32) for i in range(n)]
        b = [rd_ptr(blinds, i, 32) for i in range(n)]
        for x in g + b:
            if not valid_scalar(x):
                return 0
        if self.zero_last:
            r = bytes(32)
        elif self.env.sym:
            r = H(b'sum', be(nin, 8), *[be(x, 8) for x in v], *g, *b)
        else:
            t = 0
            for i in range(n):
                x = v[i] * int.from_bytes(g[i], 'big') + int.from_bytes(b[i], 'big')
                t += -x if i < nin else x
            r = be((int.from_bytes(b[-1], 'big') - t) % N, 32)
        if not self.zero_last:
            # (nearly) never zero
            self.env.assume((r[0] != 0xff) & (r[31] != 0) if self.env.sym else r != bytes(32))
        self.sums.append({'values': v, 'gblinds': g, 'blinds': b, 'nin': nin, 'result': r})
        wr_ptr(blinds, n - 1, r)
        return 1

    # -- range proofs -----------------------------------------------------------------
    def f_rangeproof_sign(self, ctx, proof, plen, min_value, commit, blind, nonce, exp, min_bits, value, msg, msg_len,
                          extra, extra_len, gen):
        plen = plen._obj
        msg_len, extra_len = iv(msg_len), iv(extra_len)
        min_value, value = iv(min_value), iv(value)
        exp, min_bits = iv(exp, 32), iv(min_bits, 32)
        r = {'min': min_value, 'commit': rd(commit, 64), 'blind': rd(blind, 32), 'nonce': rd(nonce, 32), 'exp': exp, 'bits': min_bits,
             'value': value, 'msg': rd(msg, msg_len), 'extra': rd(extra, extra_len) if extra_len else b'', 'extra_null': extra is None,
             'gen': rd(gen, 64)}
        if not valid_scalar(r['blind']):
            return 0
        if min_value > value:
            return 0
        if plen.value < 5134 or len(proof) < 5134:
            raise Misuse('range proof buffer')
        p = H(b'rangeproof', be(min_value, 8), r['commit'], r['blind'], r['nonce'], be(exp, 4), be(min_bits, 4), be(value, 8),
              be(len(r['msg']), 4), r['msg'], be(len(r['extra']), 4), r['extra'], r['gen'])
        p = b'\x60' + p + bytes(self.PROOF_LEN - 33)
        r['proof'] = p
        self.proofs.append(r)
        wr(proof, p)
        plen.value = len(p)
        return 1

    def f_rangeproof_rewind(self, ctx, blind_out, value_out, msg_out, outlen, nonce, min_value, max_value, commit, proof, plen,
                            extra, extra_len, gen):
        extra_len, plen = iv(extra_len), iv(plen)
        nonce, commit, gen = rd(nonce, 32), rd(commit, 64), rd(gen, 64)
        proof = rd(proof, plen)
        extra = rd(extra, extra_len) if extra_len else b''
        if outlen._obj.value > len(msg_out):
            raise Misuse('message buffer')
        if self.rewind_hook is not None:
            r = self.rewind_hook(nonce=nonce, commit=commit, proof=proof, extra=extra, gen=gen, room=outlen._obj.value)
        else:
            r = None
            for p in self.matching(proof, nonce, commit, extra, gen):
                r = {'blind': p['blind'], 'value': p['value'], 'min': p['min'], 'msg': (p['msg'] + bytes(4096))[:outlen._obj.value]}
                break
        if r is None:
            return 0
        wr(blind_out, r['blind'])
        value_out._obj.value = r['value']
        wr(msg_out, r['msg'])
        outlen._obj.value = r.get('outlen', len(r['msg']))
        min_value._obj.value = r.get('min', 0)
        max_value._obj.value = r.get('max', 0)
        return 1

    def matching(self, proof, nonce, commit, extra, gen):
        """the range proofs this data rewinds; the one that was made with exactly this data comes first"""
        conds = []
        for p in self.proofs:
            if len(p['proof']) != len(proof) or len(p['extra']) != len(extra):
                continue
            parts = [p['nonce'] == nonce, p['extra'] == extra, same(p['gen'], gen), same(p['commit'], commit), p['proof'] == proof]
            if all(self.env.certain(c) for c in parts):
                yield p
                return
            conds.append((p, parts))
        for p, parts in conds:
            for x in parts:
                if not x:
                    break
            else:
                yield p

    def f_rangeproof_info(self, ctx, exp, mantissa, min_value, max_value, proof, plen):
        r = self.info_hook(rd(proof, iv(plen))) if self.info_hook is not None else None
        if r is None:
            return 0
        exp._obj.value, mantissa._obj.value = r['exp'], r['mantissa']
        min_value._obj.value, max_value._obj.value = r['min'], r['max']
        return 1

    # -- surjection proofs ---------------------------------------------------------------
    def f_surjectionproof_allocate_initialized(self, ctx, proof, index, tags, n, n_use, tag, iters, seed):
        n, n_use = iv(n), iv(n_use)
        tags, tag = rd(tags, 32 * n), rd(tag, 32)
        seed = rd(seed, 32)
        if n_use > n or n > 256 or n_use < 1:
            return 0
        k = len(self.surj)
        if k in self.surj_fails:
            return 0
        tags = [tags[32 * i:32 * i + 32] for i in range(n)]
        # inputs whose assets merely might coincide are left out when one is known to match
        match = [i for i in range(n) if self.env.certain(tags[i] == tag)] or [i for i in range(n) if tags[i] == tag]
        if not match:
            return 0
        j = self.env.choose('surjection index', match)
        self.surj.append({'seed': seed, 'tags': tags, 'tag': tag, 'n_use': n_use, 'index': j, 'destroyed': False})
        index._obj.value = j
        proof._obj.value = k + 1
        return 1

    def live(self, proof):
        k = iv(proof)
        if not 1 <= k <= len(self.surj) or self.surj[k - 1]['destroyed']:
            raise Misuse('use of a dangling proof')
        return self.surj[k - 1]

    def f_surjectionproof_destroy(self, proof):
        self.live(proof)['destroyed'] = True

    def f_surjectionproof_generate(self, ctx, proof, in_gens, n, out_gen, index, in_blind, out_blind):
        p = self.live(proof)
        n, index = iv(n), iv(index)
        g = rd(in_gens, 64 * n)
        p['gens'] = [g[64 * i:64 * i + 64] for i in range(n)]
        p['out'] = rd(out_gen, 64)
        p['in_blind'], p['out_blind'] = rd(in_blind, 32), rd(out_blind, 32)
        if not (valid_scalar(p['in_blind']) and valid_scalar(p['out_blind'])) or n != len(p['tags']) or index >= n:
            return 0
        # the difference of the generators is the difference of the blinding factors exactly for matching data
        p['valid'] = ((index == p['index']) & same(p['gens'][index], gen64(p['tag'], p['in_blind']))
                      & same(p['out'], gen64(p['tag'], p['out_blind'])))
        return 1

    def f_surjectionproof_verify(self, ctx, proof, in_gens, n, out_gen):
        p = self.live(proof)
        n = iv(n)
        g = rd(in_gens, 64 * n)
        if n != len(p['gens']):
            return 0
        ok = p['valid'] & same(rd(out_gen, 64), p['out'])
        for i in range(n):
            ok = ok & same(g[64 * i:64 * i + 64], p['gens'][i])
        return 1 if ok else 0

    def f_surjectionproof_serialized_size(self, ctx, proof):
        self.live(proof)
        return self.SURJ_LEN

    def f_surjectionproof_serialize(self, ctx, out, plen, proof):
        p = self.live(proof)
        if plen._obj.value < self.SURJ_LEN:
            return 0
        p['proof'] = b'\x51' + H(b'surjection', *p['gens'], p['out'], be(p['index'], 4)) + bytes(self.SURJ_LEN - 33)
        wr(out, p['proof'])
        plen._obj.value = self.SURJ_LEN
        return 1


# functions bitcointx declares types for although nothing here calls them
for _n in ('ecdsa_sign', 'ecdsa_signature_serialize_der', 'ecdsa_signature_parse_der', 'ecdsa_signature_parse_compact',
           'ecdsa_signature_normalize', 'ecdsa_verify', 'ec_pubkey_tweak_add', 'ec_privkey_tweak_add', 'ec_pubkey_combine'):
    def _unused(self, *a):
        raise Misuse('unexpected call')
    setattr(Lib, 'f_' + _n, _unused)


def enc64(x):
    return x + bytes([x[31] & 1]) + bytes(31)


def tweak64(x, t):
    """point x + tweak"""
    return enc64(H(b'tweaked', x, t))


def pub33(x):
    return bytes([2 | (x[31] & 1)]) + x


def same(a, b):
    """equal points (64 bytes: x, parity of x, padding)"""
    par = ((a[32] == (a[31] & 1)) & (b[32] == (b[31] & 1))) | (a[32] == b[32])
    return (a[:32] == b[:32]) & par & (a[33:] == bytes(31)) & (b[33:] == bytes(31))


def is_gen(c, g):
    """c is the 33-byte form of generator g"""
    if len(c) != 33:
        return False
    return (c[1:] == g[:32]) & (c[0] == 10 | (c[32] & 1))


def is_commit(c, g):
    if len(c) != 33:
        return False
    return (c[1:] == g[:32]) & (c[0] == 8 | (c[32] & 1))


def gen64(asset, blind):
    return enc64(H(b'generator', asset, blind))


def ser_gen(g):
    return bytes([10 | g[32]]) + g[:32]


def parse_gen(d):
    return d[1:] + bytes([d[0] & 1]) + bytes(31)


def commit64(blind, value, gen):
    return enc64(H(b'commitment', blind, be(value, 8), gen))


def ser_commit(c):
    return bytes([8 | c[32]]) + c[:32]


def install(env, **kw):
    lib = Lib(env, **kw)
    env.urandom(lambda n: env.bytes('urandom', n))
    ctypes.cdll.LoadLibrary = lambda path: lib
    for u in (bitcointx.util, elementstx.util):
        u._secp256k1_library_path = 'model'
    bitcointx.core.secp256k1._secp256k1 = None
    elementstx.core.secp256k1._secp256k1 = None
    return lib
