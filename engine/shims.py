"""builtins and standard-library modules as seen by instrumented code"""
import binascii as _binascii
import builtins as _bi
import hashlib as _hashlib
import hmac as _hmac
import os as _os
import struct as _struct
import sys
import types
from . import sym
from .sym import (PInt, SymBool, Unsupported, SpecFail, is_sym, conc, mk, bits_of, sym_eq,
                  sym_not, sym_ite, sym_less, sym_or, sym_and, sym_disj, numeric)
from . import pbytes
from .pbytes import PBytes, PBytearray, PStr, pb, ps, seq, to_seq, codes_of, is_bytes_like, wrap, unwrap


def as_int(x):
    x = conc(x)
    if is_sym(x):
        return sym.CX.concretize(x) if isinstance(x, PInt) else int(bool(x))
    return int(x)


# ---------------------------------------------------------------- builtins
class PBoolMeta(type):
    def __call__(cls, *a):
        if not a:
            return False
        x = a[0]
        if isinstance(x, SymBool):
            return x
        if isinstance(x, PInt):
            if x._v is not None:
                return bool(x._v)
            return sym_not(sym_eq(x, 0))
        return bool(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __repr__(cls):
        return "<class 'bool'>"


class PBool(int, metaclass=PBoolMeta):
    pass


class PFloat:
    pass


_REALMAP = {}


def _map_cls(c):
    r = _REALMAP.get(c) if isinstance(c, type) else None
    if r is not None:
        return r
    if isinstance(c, tuple):
        out = []
        for e in c:
            m = _map_cls(e)
            if isinstance(m, tuple):
                out.extend(m)
            else:
                out.append(m)
        return tuple(out)
    return c


_REALMAP.update({
    PInt: (PInt, int, SymBool), int: (PInt, int, SymBool),
    PBytes: (PBytes, bytes), bytes: (PBytes, bytes),
    PBytearray: (PBytearray, bytearray), bytearray: (PBytearray, bytearray),
    PStr: (PStr, str), str: (PStr, str),
    PBool: (bool, SymBool), bool: (bool, SymBool),
})


def p_isinstance(x, c):
    return isinstance(x, _map_cls(c))


def p_issubclass(x, c):
    if x is bool or x is PBool:
        x = bool
    return issubclass(x, _map_cls(c))


_TYPEMAP = {int: PInt, bytes: PBytes, bytearray: PBytearray, str: PStr, bool: PBool, SymBool: PBool}


def p_type1(x):
    t = type(x)
    return _TYPEMAP.get(t, t)


class SymRange:
    def __init__(self, *a):
        a = [conc(x) for x in a]
        if len(a) == 1:
            self.start, self.stop, self.step = 0, a[0], 1
        else:
            self.start, self.stop = a[0], a[1]
            self.step = a[2] if len(a) > 2 else 1
        if is_sym(self.step):
            self.step = as_int(self.step)

    def __iter__(self):
        i = self.start
        while True:
            c = (i < self.stop) if self.step > 0 else (i > self.stop)
            if not c:
                return
            yield i
            i = i + self.step

    def __len__(self):
        return len(range(as_int(self.start), as_int(self.stop), self.step))

    def __getitem__(self, i):
        return range(as_int(self.start), as_int(self.stop), self.step)[i]

    def contains(self, x):
        if self.step != 1:
            raise Unsupported('symbolic range step')
        return sym_and(self.start <= x, x < self.stop)

    def __contains__(self, x):
        return bool(self.contains(x))


def p_range(*a):
    for x in a:
        if is_sym(x):
            return SymRange(*a)
    return range(*[int(x) if isinstance(x, PInt) else x for x in a])


def p_ord(x):
    if isinstance(x, PStr):
        if len(x._c) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x._c))
        return x._c[0]
    if isinstance(x, (PBytes, PBytearray)):
        if len(x._d) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x._d))
        return x._d[0]
    return ord(x)


def p_chr(x):
    x = conc(x)
    if is_sym(x):
        if isinstance(x, SymBool):
            x = x.pint()
        if x._s and bool(sym_less(x, 0, False)) or bool(sym_less(0x10ffff, x, False)):
            raise ValueError('chr() arg not in range(0x110000)')
        return ps([x])
    return chr(x)


def p_any(it):
    acc = False
    it = iter(it)
    while True:
        try:
            e = next(it)
        except StopIteration:
            return acc
        except Exception:
            if isinstance(acc, SymBool) and bool(acc):
                return True
            raise
        e = PBool(e)
        if isinstance(e, SymBool):
            acc = sym_or(acc, e)
            if acc is True:
                return True
        elif e:
            return True


def p_all(it):
    acc = True
    it = iter(it)
    while True:
        try:
            e = next(it)
        except StopIteration:
            return acc
        except Exception:
            if isinstance(acc, SymBool) and not bool(acc):
                return False
            raise
        e = PBool(e)
        if isinstance(e, SymBool):
            acc = sym_and(acc, e)
            if acc is False:
                return False
        elif not e:
            return False


def p_memoryview(x):
    return pb(to_seq(x))


def p_hex(x):
    return hex(as_int(x))


def p_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def p_repr(x):
    return repr(x)


# ---------------------------------------------------------------- struct
class StructError(Exception):
    pass


StructError = _struct.error

_ICODES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}
_RANGEMSG = 'argument out of range'


def _parse_fmt(fmt):
    if isinstance(fmt, (PBytes, bytes)):
        fmt = pb(to_seq(fmt)).tobytes().decode('ascii')
    order = 'native'
    i = 0
    if fmt and fmt[0] in '<>!=@':
        order = {'<': 'little', '>': 'big', '!': 'big', '=': 'little', '@': 'native'}[fmt[0]]
        i = 1
    items = []
    while i < len(fmt):
        if fmt[i].isspace():
            i += 1
            continue
        j = i
        while j < len(fmt) and fmt[j].isdigit():
            j += 1
        cnt = int(fmt[i:j]) if j > i else None
        items.append((fmt[j], cnt))
        i = j + 1
    if order == 'native':
        if any(c not in 'bBsxc?' for c, _ in items) and len(items) > 1:
            raise Unsupported('struct native alignment')
        sizes = dict(_ICODES, l=8, L=8)
        return 'little', items, sizes
    return order, items, _ICODES


def s_calcsize(fmt):
    order, items, sizes = _parse_fmt(fmt)
    n = 0
    for c, cnt in items:
        if c in 'sx?c':
            n += 1 if cnt is None else cnt
        else:
            n += sizes[c] * (1 if cnt is None else cnt)
    return n


def s_pack(fmt, *args):
    order, items, sizes = _parse_fmt(fmt)
    out = []
    args = list(args)

    def nxt():
        if not args:
            raise StructError('pack expected more items for packing')
        return args.pop(0)
    for c, cnt in items:
        if c == 'x':
            out.extend([0] * (1 if cnt is None else cnt))
            continue
        if c == 's':
            n = 1 if cnt is None else cnt
            v = nxt()
            if not is_bytes_like(v):
                raise StructError("argument for 's' must be a bytes object")
            d = list(seq(v))[:n]
            out.extend(d + [0] * (n - len(d)))
            continue
        for _ in range(1 if cnt is None else cnt):
            v = nxt()
            if c == '?':
                out.append(PBool(v).pint() if isinstance(PBool(v), SymBool) else int(PBool(v)))
                continue
            if c == 'c':
                if not is_bytes_like(v) or len(v) != 1:
                    raise StructError('char format requires a bytes object of length 1')
                out.extend(seq(v))
                continue
            w = sizes[c]
            signed = c.islower()
            if not numeric(v):
                f = getattr(type(v), '__index__', None)
                if f is None:
                    raise StructError('required argument is not an integer')
                v = f(v)
            try:
                out.extend(pbytes.int_to_bytes(v, w, order, signed)._d)
            except OverflowError:
                raise StructError(_RANGEMSG) from None
    if args:
        raise StructError('pack expected fewer items for packing')
    return pb(out)


def s_unpack(fmt, data):
    d = to_seq(data)
    if len(d) != s_calcsize(fmt):
        raise StructError('unpack requires a buffer of %d bytes' % s_calcsize(fmt))
    order, items, sizes = _parse_fmt(fmt)
    out = []
    pos = 0
    for c, cnt in items:
        n = 1 if cnt is None else cnt
        if c == 'x':
            pos += n
            continue
        if c == 's':
            out.append(pb(d[pos:pos + n]))
            pos += n
            continue
        for _ in range(n):
            if c == '?':
                out.append(PBool(d[pos]))
                pos += 1
            elif c == 'c':
                out.append(pb(d[pos:pos + 1]))
                pos += 1
            else:
                w = sizes[c]
                out.append(pbytes.int_from_bytes(pb(d[pos:pos + w]), order, c.islower()))
                pos += w
    return tuple(out)


def s_unpack_from(fmt, data, offset=0):
    d = to_seq(data)
    n = s_calcsize(fmt)
    offset = as_int(offset)
    if offset < 0:
        offset += len(d)
    if offset < 0 or len(d) - offset < n:
        raise StructError('unpack_from requires a buffer of at least %d bytes' % (offset + n))
    return s_unpack(fmt, pb(d[offset:offset + n]))


class Struct:
    def __init__(self, fmt):
        self.format = fmt
        self.size = s_calcsize(fmt)

    def pack(self, *a): return s_pack(self.format, *a)
    def unpack(self, d): return s_unpack(self.format, d)
    def unpack_from(self, d, offset=0): return s_unpack_from(self.format, d, offset)


def s_iter_unpack(fmt, data):
    d = to_seq(data)
    n = s_calcsize(fmt)
    if n == 0 or len(d) % n:
        raise StructError('iterative unpacking requires a buffer of a multiple of %d bytes' % n)
    for i in range(0, len(d), n):
        yield s_unpack(fmt, pb(d[i:i + n]))


m_struct = types.ModuleType('struct')
m_struct.pack = s_pack
m_struct.unpack = s_unpack
m_struct.unpack_from = s_unpack_from
m_struct.iter_unpack = s_iter_unpack
m_struct.calcsize = s_calcsize
m_struct.Struct = Struct
m_struct.error = StructError


# ---------------------------------------------------------------- io
class BytesIO:
    def __init__(self, initial=b''):
        self._buf = list(to_seq(initial)) if initial is not None else []
        self._pos = 0
        self.closed = False

    def read(self, n=-1):
        rem = max(0, len(self._buf) - self._pos)
        if n is None:
            n = -1
        n = conc(n)
        if is_sym(n):
            if isinstance(n, SymBool):
                n = n.pint()
            if n._s and bool(sym_less(n, 0, False)):
                n = rem
            elif bool(sym_less(rem, n, True)):
                n = rem
            else:
                n = as_int(n)
        elif not isinstance(n, int):
            raise TypeError("argument should be integer or None, not %r" % type(n).__name__)
        if n < 0 or n > rem:
            n = rem
        r = self._buf[self._pos:self._pos + n]
        self._pos += n
        return pb(r)

    read1 = read

    def readinto(self, b):
        raise Unsupported('readinto')

    def write(self, d):
        if not is_bytes_like(d):
            raise TypeError("a bytes-like object is required, not %r" % type(d).__name__)
        s = seq(d)
        p = self._pos
        if p == len(self._buf):
            self._buf.extend(s)
        else:
            if p > len(self._buf):
                self._buf.extend([0] * (p - len(self._buf)))
            self._buf[p:p + len(s)] = list(s)
        self._pos = p + len(s)
        return len(s)

    def getvalue(self):
        return pb(self._buf)

    def getbuffer(self):
        return pb(self._buf)

    def tell(self): return self._pos

    def seek(self, pos, whence=0):
        pos = as_int(pos)
        if whence == 1:
            pos += self._pos
        elif whence == 2:
            pos += len(self._buf)
        if pos < 0:
            raise ValueError('negative seek value %d' % pos)
        self._pos = pos
        return pos

    def truncate(self, n=None):
        n = self._pos if n is None else as_int(n)
        del self._buf[n:]
        return n

    def close(self): self.closed = True
    def flush(self): pass
    def readable(self): return True
    def writable(self): return True
    def seekable(self): return True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    @property
    def __class_getitem__(cls):
        return cls


m_io = types.ModuleType('io')
m_io.BytesIO = BytesIO
import io as _io
for _n in ('StringIO', 'IOBase', 'TextIOWrapper', 'RawIOBase', 'BufferedIOBase', 'SEEK_SET', 'SEEK_CUR', 'SEEK_END'):
    setattr(m_io, _n, getattr(_io, _n))


# ---------------------------------------------------------------- hashes
# A hash of symbolic data is a token: fresh bits, one per distinct preimage.
# Equality of whole tokens of one function is rewritten to equality of the
# preimages (congruence, and collision freedom as an explicit assumption).
def _key_of(d):
    red = sym.CX.reduce
    out = []
    for e in d:
        if type(e) is int:
            out.append(e)
        else:
            b = bits_of(e)[0]
            out.append(tuple(red(m) if m > 1 else m for m in b))
    return tuple(out)


def settle(d):
    """elements whose value the path condition fixes, as plain integers"""
    red = sym.CX.reduce if sym.CX is not None else None
    out = []
    for e in d:
        if type(e) is not int and red is not None and type(e) is PInt and e._b is not None:
            v = 0
            for i, m in enumerate(e._b):
                if m > 1:
                    m = red(m)
                    if m > 1:
                        break
                v |= m << i
            else:
                e = v if not e._s else (v - (1 << len(e._b)) if v >> (len(e._b) - 1) else v)
        out.append(e)
    return out


def conc_digest(fn, pre, dig):
    """remember a digest that was computed from concrete bytes"""
    if sym.CX is not None:
        sym.CX.store.setdefault('concdig', {})[(fn, len(dig), dig)] = tuple(pre)
    return pb(dig)


class Token:
    __slots__ = ('fn', 'pre', 'bits', 'name', 'nbytes', 'elems')


def token(fn, pre, nbytes):
    """elements (list of byte values) of the abstract digest fn(pre)"""
    C = sym.CX
    tab = C.store.setdefault('tok', {})
    key = (fn, nbytes, _key_of(pre))
    t = tab.get(key)
    if t is None:
        t = Token()
        t.fn, t.pre, t.nbytes = fn, tuple(pre), nbytes
        n = C.store['ntok'] = C.store.get('ntok', 0) + 1
        t.name = '%s#%d' % (fn, n)
        var, sup = C.new_var(t.name, 8 * nbytes)
        bits = C.term_bits(var, sup)
        t.elems = [mk(bits[8 * i:8 * i + 8], False) for i in range(nbytes)]
        byt = C.store.setdefault('tokbyte', {})
        for i in range(nbytes):
            byt[bits[8 * i]] = (t, i)
        t.bits = bits
        tab[key] = t
    return t.elems


def tok_of(e):
    """(token, byte index) if e is exactly a byte of a token"""
    if type(e) is not PInt or e._b is None or len(e._b) != 8 or e._s:
        return None
    r = sym.CX.store.get('tokbyte')
    if not r:
        return None
    b = e._b
    r = r.get(b[0])
    if r is None:
        return None
    t, i = r
    if t.bits[8 * i:8 * i + 8] != b:
        return None
    return r


def canon_elem(e):
    return e


def eq_tokens(a, b, r):
    """EQ_HOOK: a, b same-length sequences whose raw equality is r (symbolic)"""
    C = sym.CX
    if C is None or 'tok' not in C.store:
        return r
    pairs = {}
    for i, (x, y) in enumerate(zip(a, b)):
        tx = tok_of(x)
        if tx is None:
            continue
        ty = tok_of(y)
        if ty is None or tx[0] is ty[0] or tx[1] != ty[1]:
            continue
        if tx[0].fn != ty[0].fn or tx[0].nbytes != ty[0].nbytes:
            continue
        pairs.setdefault((tx[0], ty[0]), {})[tx[1]] = i
    skip = set()
    conds = []
    cd = C.store.get('concdig')
    if cd:
        # token against the digest of concrete bytes: again the preimages decide
        n = len(a)
        for s, o in ((a, b), (b, a)):
            i = 0
            while i < n:
                t = tok_of(s[i])
                if t is None or t[1] != 0 or i + t[0].nbytes > n:
                    i += 1
                    continue
                t = t[0]
                k = t.nbytes
                if all(type(o[i + j]) is int for j in range(k)) and all(tok_of(s[i + j]) == (t, j) for j in range(1, k)):
                    pre = cd.get((t.fn, k, bytes(o[i:i + k])))
                    if pre is not None:
                        if len(pre) != len(t.pre):
                            return False
                        c = pbytes.eq_seq(t.pre, pre)
                        if c is False:
                            return False
                        skip.update(range(i, i + k))
                        if c is not True:
                            conds.append(c)
                i += k
    for (t, u), pos in pairs.items():
        if len(pos) < min(t.nbytes, 4):
            continue
        # a partial match of a digest (prefix / checksum of >= 4 bytes) is
        # treated like the whole digest: collision freedom of the truncation
        if len(t.pre) != len(u.pre):
            return False
        c = pbytes.eq_seq(t.pre, u.pre)
        if c is False:
            return False
        skip.update(pos.values())
        if c is not True:
            conds.append(c)
    # token against concrete bytes: compare with digests computed concretely
    if not skip:
        return r
    rest = []
    for i, (x, y) in enumerate(zip(a, b)):
        if i in skip or x is y:
            continue
        c = sym_eq(x, y)
        if c is False:
            return False
        if c is not True:
            rest.append(c)
    r = sym.sym_conj(conds + rest)
    return r.simplified() if isinstance(r, SymBool) else r


pbytes.EQ_HOOK = eq_tokens

_SIZES = {'sha256': 32, 'sha512': 64, 'ripemd160': 20, 'sha1': 20, 'sha224': 28, 'sha384': 48, 'md5': 16}


class HashObj:
    def __init__(self, name, data=b''):
        self.name = name
        self._b = list(to_seq(data))
        self.digest_size = _SIZES[name]
        self.block_size = 64

    def update(self, d):
        if not is_bytes_like(d):
            raise TypeError('object supporting the buffer API required')
        self._b.extend(seq(d))

    def copy(self):
        return HashObj(self.name, pb(self._b))

    def digest(self):
        d = self._b
        if not all(type(e) is int for e in d):
            d = settle(d)
        if all(type(e) is int for e in d):
            return conc_digest(self.name, d, _hashlib.new(self.name, bytes(d)).digest())
        return pb(token(self.name, d, self.digest_size))

    def hexdigest(self):
        return self.digest().hex()


def h_new(name, data=b'', **kw):
    if isinstance(name, PStr):
        raise Unsupported('symbolic hash name')
    n = name.lower().replace('-', '')
    if n not in _SIZES:
        raise ValueError('unsupported hash type ' + name)
    return HashObj(n, data)


m_hashlib = types.ModuleType('hashlib')
m_hashlib.new = h_new


def _mkh(n):
    def f(data=b'', **kw):
        return HashObj(n, data)
    f.__name__ = n
    f._hname = n
    return f


for _n in _SIZES:
    setattr(m_hashlib, _n, _mkh(_n))
m_hashlib.algorithms_available = set(_SIZES)


class HmacObj:
    def __init__(self, key, msg=None, digestmod=None):
        if digestmod is None:
            raise TypeError("Missing required argument 'digestmod'.")
        self.name = digestmod if isinstance(digestmod, str) else digestmod._hname
        if not isinstance(key, (PBytes, PBytearray, bytes, bytearray)):
            raise TypeError('key: expected bytes or bytearray, but got %r' % type(key).__name__)
        self._k = tuple(seq(key))
        self._b = list(to_seq(msg)) if msg is not None else []
        self.digest_size = _SIZES[self.name]

    def update(self, d):
        self._b.extend(seq(d))

    def digest(self):
        if all(type(e) is int for e in self._b) and all(type(e) is int for e in self._k):
            return pb(_hmac.new(bytes(self._k), bytes(self._b), self.name).digest())
        if len(self._k) > 64:
            raise Unsupported('long hmac key')
        k = self._k + (0,) * (64 - len(self._k))
        return pb(token('hmac-' + self.name, k + tuple(self._b), self.digest_size))

    def hexdigest(self):
        return self.digest().hex()


m_hmac = types.ModuleType('hmac')
m_hmac.new = HmacObj
m_hmac.HMAC = HmacObj
m_hmac.digest = lambda key, msg, digest: HmacObj(key, msg, digest).digest()


def _compare_digest(a, b):
    if pbytes.is_str(a):
        return pbytes.eq_seq(codes_of(a), codes_of(b))
    return pbytes.eq_seq(to_seq(a), to_seq(b))


m_hmac.compare_digest = _compare_digest


# ---------------------------------------------------------------- binascii / os
def b_hexlify(d, *a):
    r = pb(to_seq(d)).hex(*a)
    return pb(codes_of(r)) if isinstance(r, PStr) else pb(r.encode())


def b_unhexlify(d):
    if isinstance(d, str):
        return pb(_binascii.unhexlify(d))
    if isinstance(d, PStr):
        s = d
    else:
        s = ps(list(to_seq(d)))
        if isinstance(s, str):
            return pb(_binascii.unhexlify(s.encode('latin1')))
    if len(s._c) % 2:
        raise _binascii.Error('Odd-length string')
    try:
        return pb(pbytes.hex_to_seq(s))
    except ValueError:
        raise _binascii.Error('Non-hexadecimal digit found') from None


m_binascii = types.ModuleType('binascii')
m_binascii.hexlify = m_binascii.b2a_hex = b_hexlify
m_binascii.unhexlify = m_binascii.a2b_hex = b_unhexlify
m_binascii.Error = _binascii.Error

m_os = types.ModuleType('os')
for _n in dir(_os):
    if not _n.startswith('__'):
        try:
            setattr(m_os, _n, getattr(_os, _n))
        except Exception:
            pass


def os_urandom(n):
    n = as_int(n)
    C = sym.CX
    if C is None:
        return pb(_os.urandom(n))
    hook = C.store.get('urandom')
    if hook is None:
        raise Unsupported('os.urandom without a model')
    return pb(to_seq(hook(n)))


m_os.urandom = os_urandom

# ---------------------------------------------------------------- ctypes
import ctypes as _ct
from . import ctmodel

MODULES = {
    'struct': m_struct, 'io': m_io, 'hashlib': m_hashlib, 'hmac': m_hmac,
    'binascii': m_binascii, 'os': m_os,
    'ctypes': ctmodel.m_ctypes, 'ctypes.util': ctmodel.m_ctypes_util,
}


def p_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        m = MODULES.get(name)
        if m is not None:
            if '.' in name and not fromlist:
                return MODULES[name.split('.')[0]]
            return m
    return _bi.__import__(name, globals, locals, fromlist, level)


# ---------------------------------------------------------------- operators used by transformed code
def h_not(x):
    if isinstance(x, SymBool):
        return sym_not(x)
    if isinstance(x, PInt) and x._v is None:
        return sym_eq(x, 0)
    return not x


def h_in(x, c):
    if isinstance(c, (PBytes, PBytearray, PStr)):
        return c.contains(x)
    if isinstance(c, SymRange):
        return c.contains(x)
    if isinstance(x, PStr) and isinstance(c, str):
        if len(x._c) == 1:
            # set of characters: table on the code point
            r = pbytes.prov_pred(x._c[0], lambda v: chr(v) in c)
            if r is not None:
                return r
            return sym_disj(sym_eq(x._c[0], ord(ch)) for ch in sorted(set(c)))
        s, n = codes_of(c), len(x._c)
        return sym_disj(pbytes.eq_seq(s[i:i + n], x._c) for i in range(len(s) - n + 1))
    symx = is_sym(x) or isinstance(x, PStr) or (isinstance(x, PBytes) and not x.is_concrete())
    if isinstance(c, range) and symx and c.step == 1:
        return sym_and(c.start <= x, x < c.stop)
    if symx and isinstance(c, (dict, set, frozenset, type({}.keys()), type({}.values()))):
        c = list(c)
        out = False
        for e in c:
            if x is e:
                return True
            out = sym_or(out, PBool(x == e))
        return out
    if type(c) in (list, tuple):
        out = False
        for e in c:
            if x is e:
                return True
            r = PBool(x == e)
            out = sym_or(out, r)
            if out is True:
                return True
        return out
    return x in c


def h_notin(x, c):
    return h_not(h_in(x, c))


def h_getitem(o, i):
    t = type(i)
    if t is int or t is str:
        return o[i]
    if is_sym(i):
        if isinstance(i, SymBool):
            i = i.pint()
        if isinstance(o, str):
            return ps([pbytes.table_lookup(codes_of(o), i)])
        if isinstance(o, PStr):
            return ps([pbytes.table_lookup(o._c, i)])
        if type(o) in (list, tuple):
            if o and all(numeric(e) for e in o):
                return pbytes.table_lookup(o, i)
            return o[as_int(i)]
        if type(o) is dict:
            return h_dictget(o, i)
    elif isinstance(i, PStr) or (isinstance(i, PBytes) and not i.is_concrete()):
        if isinstance(o, dict):
            return h_dictget(o, i)
    return o[i]


_MISS = object()


def h_dictget(o, i, default=_MISS):
    if all(type(k) is int for k in o) and all(type(v) is int and v >= 0 for v in o.values()) and o \
            and is_sym(i):
        # integer to integer table
        inside = sym_disj(sym_eq(i, k) for k in o)
        if not bool(PBool(inside)):
            if default is _MISS:
                raise KeyError('<sym>')
            return default
        m = max(o) + 1
        if min(o) >= 0 and m <= 65536:
            vals = list(o.values())
            tab = [vals[0]] * m
            for k, v in o.items():
                tab[k] = v
            return pbytes.table_lookup(tab, mk(bits_of(i)[0][:m.bit_length()], False))
    for k, v in o.items():
        if bool(PBool(i == k)):
            return v
    if default is _MISS:
        raise KeyError('<sym>')
    return default


_BM = type(''.join)
_STRSYM = {'join', 'find', 'rfind', 'index', 'rindex', 'startswith', 'endswith', 'count', 'replace', 'split',
           '__contains__', 'removeprefix', 'partition', '__add__', '__eq__'}


def _force(x):
    return list(x) if not isinstance(x, (list, tuple)) else x


_MW = type(''.__len__)


def h_cm(f):
    if type(f) is not _BM:
        if type(f) is _MW and f.__name__ in ('__getitem__', '__contains__') and \
                type(f.__self__) in (str, bytes, tuple, list, dict, set, frozenset):
            s = f.__self__
            return (lambda i: h_getitem(s, i)) if f.__name__ == '__getitem__' else (lambda i: h_in(i, s))
        return f
    s = f.__self__
    ts = type(s)
    if f.__name__ in ('__getitem__', '__contains__') and ts in (str, bytes, tuple, list, dict, set, frozenset):
        return (lambda i: h_getitem(s, i)) if f.__name__ == '__getitem__' else (lambda i: h_in(i, s))
    if ts in (list, tuple) and f.__name__ == 'index':
        def index(x, *a):
            if a or not (is_sym(x) or any(is_sym(e) for e in s)):
                return f(x, *a)
            for n, e in enumerate(s):
                if e == x:
                    return n
            raise ValueError('not in list')
        return index
    if ts is str:
        name = f.__name__

        def call(*a, **k):
            if name == 'join':
                items = list(a[0])
                for x in items:
                    if isinstance(x, PStr):
                        r = object.__new__(PStr)
                        r._c = codes_of(s)
                        return PStr.join(r, items)
                return s.join(items)
            if name == 'format':
                for x in list(a) + list(k.values()):
                    if isinstance(x, PStr):
                        return h_format(s, a, k)
                return s.format(*a, **k)
            if name in ('find', 'index', 'rfind', 'rindex') and len(a) == 1 and not k and isinstance(a[0], PStr) \
                    and len(a[0]._c) == 1:
                i = pbytes.char_find(s, a[0]._c[0], name[0] == 'r')
                if name.endswith('index') and type(i) is int and i < 0:
                    raise ValueError('substring not found')
                return i
            if any(isinstance(x, PStr) for x in a):
                r = object.__new__(PStr)
                r._c = codes_of(s)
                return getattr(PStr, name)(r, *a, **k)
            return wrap(f(*[int(x) if isinstance(x, PInt) else x for x in a], **k))
        return call
    if ts is int or ts is bytes or ts is bool:
        name = f.__name__
        if ts is bytes:
            return getattr(pb(s), name)
        if name == 'to_bytes':
            return lambda *a, **k: pbytes.int_to_bytes(s, *a, **k)
        return f
    if ts is dict and f.__name__ in ('get', 'pop'):
        def dget(key, *d):
            if is_sym(key) or isinstance(key, PStr) or (isinstance(key, PBytes) and not key.is_concrete()):
                if f.__name__ == 'pop':
                    raise Unsupported('dict.pop with symbolic key')
                return h_dictget(s, key, d[0] if d else None)
            return f(key, *d)
        return dget
    return f


def h_format(s, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in k:
            v = k[field]
        else:
            raise Unsupported('format field')
        if isinstance(v, PStr) and not spec and not conv:
            out.append(v)
        else:
            out.append(('{' + ('!' + conv if conv else '') + (':' + spec if spec else '') + '}').format(v))
    codes = []
    for x in out:
        codes.extend(codes_of(x))
    return ps(codes)


def h_fstr(*parts):
    codes = []
    if not any(isinstance(p, PStr) for p in parts):
        return ''.join(parts)
    for p in parts:
        codes.extend(codes_of(p))
    return ps(codes)


def h_fval(v, conv, spec):
    if isinstance(v, PStr) and conv == -1 and not spec:
        return v
    if conv == 115:
        v = PStr(v)
    elif conv == 114:
        v = repr(v)
    elif conv == 97:
        v = ascii(v)
    if isinstance(v, PStr):
        return '<symstr>'
    return format(v, spec)


def h_mod(a, b):
    if type(a) is str:
        items = b if isinstance(b, tuple) else (b,)
        if any(isinstance(x, PStr) for x in items):
            if a.count('%s') == len(items) and a.count('%') == len(items):
                segs = a.split('%s')
                codes = list(codes_of(segs[0]))
                for x, sg in zip(items, segs[1:]):
                    codes.extend(codes_of(PStr(x)))
                    codes.extend(codes_of(sg))
                return ps(codes)
            return a % tuple('<symstr>' if isinstance(x, PStr) else x for x in items)
        if any(is_sym(x) for x in items):
            import re
            a = re.sub(r'%[-+ #0]*[0-9]*(\.[0-9]+)?[dxXiou]', '%s', a)
        return a % b
    return a % b


def _symb(x):
    return isinstance(x, SymBool)


def h_and(*thunks):
    acc = thunks[0]()
    for i in range(1, len(thunks)):
        if not isinstance(acc, SymBool):
            if not acc:
                return acc
            acc = thunks[i]()
            continue
        r = _spec(thunks[i])
        if isinstance(r, (bool, SymBool)):
            acc = sym_and(acc, r)
        else:
            if not bool(acc):
                return False
            acc = thunks[i]()
    return acc


def h_or(*thunks):
    acc = thunks[0]()
    for i in range(1, len(thunks)):
        if not isinstance(acc, SymBool):
            if acc:
                return acc
            acc = thunks[i]()
            continue
        r = _spec(thunks[i])
        if isinstance(r, (bool, SymBool)):
            acc = sym_or(acc, r)
        else:
            if bool(acc):
                return True
            acc = thunks[i]()
    return acc


def _spec(th):
    C = sym.CX
    C.nofork += 1
    try:
        return th()
    except (SpecFail, Exception):
        return None
    finally:
        C.nofork -= 1


def h_ifexp(c, a, b):
    c = c()
    if type(c) is PInt and c._v is None:
        c = sym_not(sym_eq(c, 0))
    if isinstance(c, SymBool):
        x = _spec(a)
        if numeric(x):
            y = _spec(b)
            if numeric(y) and isinstance(x, (bool, SymBool)) == isinstance(y, (bool, SymBool)) \
                    and type(x) in (int, bool, SymBool, PInt) and type(y) in (int, bool, SymBool, PInt):
                return sym_ite(c, x, y)
    return a() if c else b()


def h_mergeable(t, get):
    """may the conditional update be merged: symbolic condition, integer variable"""
    if not (isinstance(t, SymBool) or (type(t) is PInt and t._v is None)):
        return False
    try:
        v = get()
    except NameError:
        return False
    return type(v) in (int, bool, PInt, SymBool)


def h_cmpchain(left, *rest):
    """rest: op, thunk, op, thunk ... evaluates like a chained comparison"""
    import operator
    acc = True
    v = left
    for i in range(0, len(rest), 2):
        op, th = rest[i], rest[i + 1]
        if isinstance(acc, SymBool):
            C = sym.CX
            C.nofork += 1
            try:
                w = th()
                r = _OPS[op](v, w)
                if not isinstance(r, (bool, SymBool)):
                    r = None
            except (SpecFail, Exception):
                r = None
            finally:
                C.nofork -= 1
            if r is None:
                if not bool(acc):
                    return False
                w = th()
                acc = _OPS[op](v, w)
            else:
                acc = sym_and(acc, r)
        else:
            if not acc:
                return acc
            w = th()
            acc = _OPS[op](v, w)
        v = w
    return acc


import operator as _op
_OPS = {'Eq': _op.eq, 'NotEq': _op.ne, 'Lt': _op.lt, 'LtE': _op.le, 'Gt': _op.gt, 'GtE': _op.ge,
        'Is': _op.is_, 'IsNot': _op.is_not, 'In': h_in, 'NotIn': h_notin}

BUILTINS = dict(vars(_bi))
BUILTINS.update({
    'int': PInt, 'bytes': PBytes, 'bytearray': PBytearray, 'str': PStr, 'bool': PBool,
    'isinstance': p_isinstance, 'issubclass': p_issubclass, 'range': p_range, 'ord': p_ord, 'chr': p_chr,
    'any': p_any, 'all': p_all, 'memoryview': p_memoryview, 'hex': p_hex, 'sum': p_sum,
    '__import__': p_import,
    '__v_not__': h_not, '__v_in__': h_in, '__v_notin__': h_notin, '__v_getitem__': h_getitem, '__v_cm__': h_cm,
    '__v_fstr__': h_fstr, '__v_fval__': h_fval, '__v_mod__': h_mod, '__v_and__': h_and, '__v_or__': h_or,
    '__v_ifexp__': h_ifexp, '__v_mergeable__': h_mergeable, '__v_chain__': h_cmpchain, '__v_type1__': p_type1, '__v_pb__': pb,
})
