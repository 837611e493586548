"""bytes / bytearray / str as seen by instrumented code"""
import binascii
from . import sym
from .sym import (PInt, SymBool, Unsupported, is_sym, conc, mk, bits_of, sym_eq,
                  sym_conj, sym_disj, sym_not, sym_ite, sym_less, numeric)

_tobytes = bytes


def elem(x):
    """normalise one byte value (range-checked)"""
    x = conc(x)
    if is_sym(x):
        if isinstance(x, SymBool):
            return x.pint()
        if type(x) is not PInt:
            x = mk(x._b, x._s)
            if not is_sym(x):
                return elem(x)
        if x._s or len(x._b) > 8:
            x = x.reduced()
            if not is_sym(x):
                return elem(x)
            if bool(sym_less(x, 0, False)) or bool(sym_less(255, x, False)):
                raise ValueError('bytes must be in range(0, 256)')
            x = mk(x._b[:8], False)
        return x
    x = x.__index__()
    if not 0 <= x <= 255:
        raise ValueError('bytes must be in range(0, 256)')
    return x


def is_bytes_like(x):
    return isinstance(x, (PBytes, PBytearray, bytes, bytearray, memoryview))


def seq(x):
    """list/tuple/bytes of elements of a bytes-like"""
    if isinstance(x, PBytes):
        return x._d
    if isinstance(x, PBytearray):
        return x._d
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, memoryview):
        return bytes(x)
    raise TypeError("a bytes-like object is required, not '%s'" % type(x).__name__)


def pb(d):
    """PBytes from list/tuple/bytes of elements (already normalised)"""
    r = object.__new__(PBytes)
    if type(d) is not bytes:
        for e in d:
            if type(e) is not int:
                d = tuple(d)
                break
        else:
            d = bytes(d)
    r._d = d
    return r


def to_seq(value, *rest):
    if rest or isinstance(value, (str, PStr)):
        if isinstance(value, PStr):
            return value.encode(*rest)._d
        if isinstance(value, str):
            return bytes(value, *rest)
        raise TypeError('encoding without a string argument')
    if isinstance(value, (PBytes, PBytearray)):
        d = value._d
        return tuple(d) if type(d) is list else d
    if isinstance(value, (bytes, bytearray, memoryview)):
        return bytes(value)
    f = getattr(value, '_pbuf', None)
    if f is not None:
        return pb(f)._d
    f = getattr(type(value), '__bytes__', None)
    if f is not None:
        return seq(f(value))
    if numeric(value):
        n = conc(value)
        if is_sym(n):
            n = n.__index__()
        return bytes(n)
    return pb([elem(x) for x in value])._d


def eq_seq(a, b):
    if len(a) != len(b):
        return False
    if type(a) is bytes and type(b) is bytes:
        return a == b
    out = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        if x is y:
            continue
        c = sym_eq(x, y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    r = sym_conj(out)
    if isinstance(r, SymBool):
        r = r.simplified()
    hook = EQ_HOOK
    if hook is not None and isinstance(r, SymBool):
        r = hook(a, b, r)
    return r


EQ_HOOK = None


def less_seq(a, b, oreq):
    n = min(len(a), len(b))
    # lexicographic, most significant first: build one big-endian integer compare on the common part
    if type(a) is bytes and type(b) is bytes:
        return a <= b if oreq else a < b
    x = int_from_bytes(pb(a[:n]), 'big', False) if n else 0
    y = int_from_bytes(pb(b[:n]), 'big', False) if n else 0
    if len(a) == len(b):
        return x <= y if oreq else x < y
    if len(a) < len(b):
        return x <= y
    return x < y


def int_from_bytes(b, order='big', signed=False):
    d = to_seq(b)
    if order == 'big':
        d = d[::-1]
    elif order != 'little':
        raise ValueError("byteorder must be either 'little' or 'big'")
    if type(d) is bytes:
        return int.from_bytes(d, 'little', signed=signed)
    bits = []
    for e in d:
        b_, _ = bits_of(e, 8)
        bits.extend(sym.ext(b_, False, 8))
    return mk(tuple(bits), signed)


def int_to_bytes(x, length, order='big', signed=False):
    length = int(length)
    x = conc(x)
    if not is_sym(x):
        return pb(int(x).to_bytes(length, str(order), signed=signed))
    if isinstance(x, SymBool):
        x = x.pint()
    b, s = bits_of(x)
    w = 8 * length
    if s and not signed:
        if bool(sym_less(x, 0, False)):
            raise OverflowError("can't convert negative int to unsigned")
        b, s = b[:-1], False
    need = len(b) + (1 if (signed and not s) else 0)
    if need > w:
        x = mk(b, s)
        x = x.reduced() if isinstance(x, PInt) else x
        if signed:
            bad = sym.sym_or(sym_less(x, -(1 << (w - 1)), False), sym_less((1 << (w - 1)) - 1, x, False))
        else:
            bad = sym_less((1 << w) - 1, x, False)
        if bool(bad):
            raise OverflowError('int too big to convert')
        b, s = bits_of(x)
    b = sym.ext(b, s, w)
    d = [mk(b[i:i + 8], False) for i in range(0, w, 8)]
    if order == 'big':
        d.reverse()
    elif order != 'little':
        raise ValueError("byteorder must be either 'little' or 'big'")
    return pb(d)


def norm_index(i):
    i = conc(i)
    if is_sym(i):
        return i.__index__()
    return i


def norm_bound(v, n):
    if v is None:
        return None
    v = conc(v)
    if is_sym(v) and isinstance(v, PInt) and n is not None:
        # everything at or past the end behaves like the end
        if bool(sym.sym_less(n, v, True)):
            return n
    return norm_index(v)


def norm_slice(s, n=None):
    if s.step is not None:
        n = None
    return slice(norm_bound(s.start, n), norm_bound(s.stop, n), None if s.step is None else norm_index(s.step))


def find_sub(d, sub, start, end, rev=False):
    """index or -1; forks on symbolic matches"""
    n = len(d)
    start, end, _ = slice(start, end).indices(n)
    m = len(sub)
    rngv = range(start, end - m + 1)
    for i in (reversed(rngv) if rev else rngv):
        if bool(eq_seq(d[i:i + m], sub)):
            return i
    return -1


class _BytesCommon:
    __slots__ = ()

    def tobytes(self):
        """real bytes; raises if symbolic"""
        d = self._d
        if type(d) is bytes:
            return d
        for e in d:
            if type(e) is not int:
                raise Unsupported('symbolic bytes reach native code')
        return bytes(d)

    def is_concrete(self):
        return all(type(e) is int for e in self._d)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(self._d)

    def __bool__(self):
        return len(self._d) > 0

    def __eq__(self, o):
        if isinstance(o, (PBytes, PBytearray, bytes, bytearray)):
            return eq_seq(self._d, seq(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __lt__(self, o): return less_seq(self._d, seq(o), False) if is_bytes_like(o) else NotImplemented
    def __le__(self, o): return less_seq(self._d, seq(o), True) if is_bytes_like(o) else NotImplemented
    def __gt__(self, o): return less_seq(seq(o), self._d, False) if is_bytes_like(o) else NotImplemented
    def __ge__(self, o): return less_seq(seq(o), self._d, True) if is_bytes_like(o) else NotImplemented

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        if numeric(x):
            x = conc(x)
            return sym_disj(sym_eq(e, x) for e in self._d)
        s = seq(x)
        n = len(s)
        d = self._d
        return sym_disj(eq_seq(d[i:i + n], s) for i in range(len(d) - n + 1))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self._d[norm_slice(i, len(self._d))])
        i = conc(i)
        if is_sym(i):
            return table_lookup(self._d, i)
        return self._d[i]

    def __add__(self, o):
        if not is_bytes_like(o):
            return NotImplemented
        return self._mk(tuple(self._d) + tuple(seq(o)))

    def __mul__(self, n):
        return self._mk(tuple(self._d) * norm_index(n))
    __rmul__ = __mul__

    def __mod__(self, args):
        return pb(self.tobytes() % args)

    def hex(self, *a):
        d = self._d
        if type(d) is bytes or self.is_concrete():
            return bytes(d).hex(*a)
        if a:
            raise Unsupported('hex with separator')
        out = []
        for e in d:
            out.append(hexdigit(e >> 4))
            out.append(hexdigit(e & 15))
        return ps(out)

    def decode(self, encoding='utf-8', errors='strict'):
        d = self._d
        if self.is_concrete():
            return bytes(d).decode(encoding, errors)
        for e in d:
            if bool(sym_less(127, e, False)):
                if encoding.lower().replace('-', '').replace('_', '') in ('ascii', 'usascii'):
                    raise UnicodeDecodeError('ascii', b'', 0, 1, 'ordinal not in range(128)')
                if encoding.lower() in ('latin1', 'latin-1', 'iso-8859-1'):
                    continue
                raise Unsupported('decoding symbolic non-ascii bytes')
        return ps(list(d))

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any_([self.startswith(x, start, end) for x in p])
        d = self._d[start:end]
        s = seq(p)
        return len(d) >= len(s) and eq_seq(d[:len(s)], s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any_([self.endswith(x, start, end) for x in p])
        d = self._d[start:end]
        s = seq(p)
        return len(d) >= len(s) and eq_seq(d[len(d) - len(s):], s)

    def _sub(self, x):
        return (elem(x),) if numeric(x) else seq(x)

    def find(self, x, start=None, end=None):
        return find_sub(self._d, self._sub(x), start, end)

    def rfind(self, x, start=None, end=None):
        return find_sub(self._d, self._sub(x), start, end, True)

    def index(self, x, start=None, end=None):
        i = self.find(x, start, end)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def rindex(self, x, start=None, end=None):
        i = self.rfind(x, start, end)
        if i < 0:
            raise ValueError('subsection not found')
        return i

    def count(self, x, start=None, end=None):
        s = self._sub(x)
        d = self._d[start:end]
        n, i = 0, 0
        while i + len(s) <= len(d):
            if bool(eq_seq(d[i:i + len(s)], s)):
                n += 1
                i += max(1, len(s))
            else:
                i += 1
        return n

    def join(self, items):
        out = []
        first = True
        allc = type(self._d) is bytes
        for it in items:
            if not is_bytes_like(it):
                raise TypeError('sequence item: expected a bytes-like object, %s found' % type(it).__name__)
            if not first:
                out.extend(self._d)
            first = False
            out.extend(seq(it))
        return self._mk(out)

    def lstrip(self, chars=None):
        cs = bytes(b' \t\n\r\x0b\x0c') if chars is None else seq(chars)
        d = self._d
        i = 0
        while i < len(d) and bool(sym_disj(sym_eq(d[i], c) for c in cs)):
            i += 1
        return self._mk(d[i:])

    def rstrip(self, chars=None):
        cs = bytes(b' \t\n\r\x0b\x0c') if chars is None else seq(chars)
        d = self._d
        i = len(d)
        while i > 0 and bool(sym_disj(sym_eq(d[i - 1], c) for c in cs)):
            i -= 1
        return self._mk(d[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def ljust(self, w, fill=b' '):
        n = max(0, norm_index(w) - len(self._d))
        return self._mk(tuple(self._d) + tuple(seq(fill)) * n)

    def rjust(self, w, fill=b' '):
        n = max(0, norm_index(w) - len(self._d))
        return self._mk(tuple(seq(fill)) * n + tuple(self._d))

    def zfill(self, w):
        return self.rjust(w, b'0')

    def removeprefix(self, p):
        s = seq(p)
        if bool(self.startswith(p)):
            return self._mk(self._d[len(s):])
        return self._mk(self._d)

    def partition(self, sep):
        i = self.find(sep)
        s = seq(sep)
        if i < 0:
            return self._mk(self._d), self._mk(b''), self._mk(b'')
        return self._mk(self._d[:i]), self._mk(s), self._mk(self._d[i + len(s):])

    def __getattr__(self, name):
        # remaining methods of bytes on concrete contents only
        if name.startswith('__') or not hasattr(bytes, name):
            raise AttributeError("%r object has no attribute %r" % (type(self).__name__, name))
        real = getattr(self.tobytes(), name)

        def call(*a, **k):
            r = real(*[unwrap(x) for x in a], **{kk: unwrap(v) for kk, v in k.items()})
            return wrap(r)
        return call

    def __reversed__(self):
        return iter(self._d[::-1])


def unwrap(x):
    if isinstance(x, (PBytes, PBytearray)):
        return x.tobytes()
    if isinstance(x, PInt):
        return int(x)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(unwrap(e) for e in x)
    return x


def wrap(x):
    if type(x) is bytes:
        return pb(x)
    if type(x) is bytearray:
        return PBytearray(bytes(x))
    if type(x) in (list, tuple):
        return type(x)(wrap(e) for e in x)
    return x


def path_hash(x, d):
    """equal values have equal hashes: a value is compared with all that were hashed before on this path"""
    ctx = sym.CX
    if ctx is None:
        if type(d) is bytes:
            return hash(d)
        raise Unsupported('hash of symbolic bytes')
    seen = ctx.store.get('hashed')
    if seen is None:
        seen = ctx.store['hashed'] = ({}, [])
    known, symbolic = seen
    if type(d) is bytes:
        h = known.get(d)
        if h is not None:
            return h
        h = hash(d)
        others = symbolic
    else:
        for y, h in symbolic:
            if y is x or y._d is d:
                return h
        h = None
        others = symbolic + [(pb(k), v) for k, v in known.items()]
    for y, v in others:
        if len(y._d) == len(d) and bool(eq_seq(d, y._d)):
            h = v
            break
    if h is None:
        h = (ctx.path_id << 20) + len(symbolic)
    if type(d) is bytes:
        known[d] = h
    else:
        symbolic.append((x, h))
    return h


class PBytes(_BytesCommon):
    def __new__(cls, value=b'', *rest, **kw):
        if rest or kw:
            d = to_seq(value, *(list(rest) + list(kw.values())))
        else:
            d = to_seq(value)
        if cls is PBytes and type(value) is PBytes:
            return value
        r = object.__new__(cls)
        r._d = d
        return r

    def _mk(self, d):
        return pb(d)

    def __hash__(self):
        d = self._d
        if type(d) is not bytes and all(type(e) is int for e in d):
            d = bytes(d)
        return path_hash(self, d)

    def __bytes__(self):
        return pb(self._d)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if all(type(e) is int for e in self._d):
            return repr(bytes(self._d))
        return "b'<sym %d>'" % len(self._d)

    def __str__(self):
        return self.__repr__()

    def __buffer__(self, flags):
        return memoryview(self.tobytes())

    @classmethod
    def fromhex(cls, s):
        if isinstance(s, PStr):
            return cls(hex_to_seq(s))
        return cls(bytes.fromhex(s))

    @staticmethod
    def maketrans(a, b):
        return pb(bytes.maketrans(unwrap(a), unwrap(b)))


class PBytearray(_BytesCommon):
    __hash__ = None

    def __init__(self, value=b'', *rest, **kw):
        self._d = list(to_seq(value, *(list(rest) + list(kw.values()))))

    def _mk(self, d):
        r = object.__new__(PBytearray)
        r._d = list(d)
        return r

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._mk(self._d[norm_slice(i, len(self._d))])
        return self._d[norm_index(i)]

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self._d[norm_slice(i, len(self._d))] = list(to_seq(v))
        else:
            self._d[norm_index(i)] = elem(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            del self._d[norm_slice(i, len(self._d))]
        else:
            del self._d[norm_index(i)]

    def append(self, v):
        self._d.append(elem(v))

    def extend(self, v):
        self._d.extend(to_seq(v) if is_bytes_like(v) else [elem(x) for x in v])

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, v):
        self._d.insert(i, elem(v))

    def pop(self, i=-1):
        return self._d.pop(i)

    def clear(self):
        self._d.clear()

    def reverse(self):
        self._d.reverse()

    def copy(self):
        return self._mk(self._d)

    def __repr__(self):
        return 'bytearray(%r)' % (pb(self._d),)
    __str__ = __repr__

    @classmethod
    def fromhex(cls, s):
        return cls(PBytes.fromhex(s))


def any_(items):
    return sym_disj(items)


# ---------------------------------------------------------------------------
def table_lookup(items, idx):
    """items[idx] for a symbolic index and a table of small ints / chars"""
    if isinstance(idx, PInt) and prov_of(idx) is None:
        idx = idx.reduced()
    if not is_sym(idx):
        return items[int(idx)]
    n = len(items)
    b, s = bits_of(idx)
    if s and bool(sym_less(idx, 0, False)):
        raise Unsupported('negative symbolic index')
    if s:
        idx = mk(b[:-1], False)
        b, s = bits_of(idx)
    if len(b) > 16:
        if bool(sym_less(n - 1, idx, False)):
            raise IndexError('index out of range')
        b = b[:max(1, (n - 1).bit_length())]
        idx = mk(b, False)
    elif (1 << len(b)) > n:
        if bool(sym_less(n - 1, idx, False)):
            raise IndexError('index out of range')
    if all(type(x) is int for x in items) and n <= 256:
        return table_term(tuple(items), idx)
    r = items[0]
    for i in range(1, n):
        r = sym_ite(sym_eq(idx, i), items[i], r)
    return r


def prov_of(x):
    """(table, index bits) when x is known to be table[index] for a small index"""
    if type(x) is not PInt or x._b is None or x._s:
        return None
    r = sym.CX.store.get('prov')
    return r.get(x._b) if r else None


def affine(vals, k):
    """(constant, coefficients) if the boolean function with truth table vals over k bits is affine"""
    c = vals[0]
    co = [vals[1 << i] ^ c for i in range(k)]
    for n, v in enumerate(vals):
        e = c
        for i in range(k):
            if n >> i & 1:
                e ^= co[i]
        if e != v:
            return None
    return c, co


def table_term(table, idx, width=None):
    """constant table over a small symbolic index: affine bits become linear expressions, the others a decision
    tree; cached per path by (table, index bits), and remembered so that tables compose"""
    import z3
    CX = sym.CX
    b, _ = bits_of(idx)
    k = len(b)
    tab = tuple(table) + (table[-1],) * ((1 << k) - len(table))
    pr = prov_of(idx)
    if pr is not None:
        t0, b = pr
        n = len(tab)
        tab = tuple(tab[v] if v < n else tab[-1] for v in t0)
        k = len(b)
    tab = tab[:1 << k]
    key = ('table', tab, b)
    c = CX.store.get(key)
    if c is not None:
        return c
    w = max(1, max(tab).bit_length())
    out = [None] * w
    hard = []
    for j in range(w):
        vals = [v >> j & 1 for v in tab]
        r = affine(vals, k)
        if r is None:
            hard.append(j)
            continue
        m = r[0]
        for i in range(k):
            if r[1][i]:
                m ^= b[i]
        out[j] = m
    if hard:
        x = CX.bv(b)
        sub = [sum((v >> j & 1) << i for i, j in enumerate(hard)) for v in tab]
        hw = len(hard)
        cache = {}

        def build(lo, hi, bit):
            vals = tuple(sub[lo:hi])
            if all(v == vals[0] for v in vals):
                return z3.BitVecVal(vals[0], hw)
            if (vals, bit) in cache:
                return cache[(vals, bit)]
            mid = (lo + hi) // 2
            r = z3.If(z3.Extract(bit, bit, x) == 1, build(mid, hi, bit - 1), build(lo, mid, bit - 1))
            cache[(vals, bit)] = r
            return r
        tb = CX.term_bits(build(0, 1 << k, k - 1), CX.sup_of_bits(b), hw)
        for i, j in enumerate(hard):
            out[j] = tb[i]
    r = mk(tuple(out), False)
    if hard and type(r) is PInt and k <= 8:
        CX.store.setdefault('prov', {})[r._b] = (tab, b)
    CX.store[key] = r
    return r


def prov_pred(x, pred):
    """pred(x) for x with a known table: decided or expressed on the index; None when unknown"""
    pr = prov_of(x)
    if pr is None:
        return None
    tab, b = pr
    tt = [1 if pred(v) else 0 for v in tab]
    n = sum(tt)
    if n == 0:
        return False
    if n == len(tt):
        return True
    if n == 1:
        return sym_eq(mk(b, False), tt.index(1))
    if n == len(tt) - 1:
        return sym_not(sym_eq(mk(b, False), tt.index(0)))
    t = table_term(tuple(tt), mk(b, False))
    return sym.from_bit(bits_of(t)[0][0])


def prov_eq(x, y):
    """equality of two entries of one injective table is equality of the indices"""
    p, q = prov_of(x), prov_of(y)
    if p is None or q is None or p[0] != q[0] or len(set(p[0])) != len(p[0]):
        return None
    return sym_eq(mk(p[1], False), mk(q[1], False))


def char_find(hay, c, rev=False):
    """position of a symbolic character in a concrete string, or -1"""
    if not bool(sym_less(c, 128, False)):
        return find_sub(tuple(map(ord, hay)), (c,), None, None, rev)
    tab = [(hay.rfind if rev else hay.find)(chr(v)) for v in range(128)]
    if bool(sym_eq(table_lookup([v + 1 for v in tab], c), 0)):
        return -1
    return table_lookup([max(v, 0) for v in tab], c)


sym.PROV_PRED = prov_pred
sym.PROV_EQ = prov_eq


def hexdigit(e):
    if not is_sym(e):
        return ord('0123456789abcdef'[int(e)])
    return table_term(tuple(b'0123456789abcdef'), e)


def hex_to_seq(s):
    d = s._c
    if len(d) % 2:
        raise ValueError('non-hexadecimal number found in fromhex()')
    tab = [255] * 128
    for i, ch in enumerate('0123456789abcdef'):
        tab[ord(ch)] = i
    for i, ch in enumerate('ABCDEF'):
        tab[ord(ch)] = 10 + i
    out = []
    for i in range(0, len(d), 2):
        v = []
        for ch in d[i:i + 2]:
            if not is_sym(ch):
                v.append(int(chr(ch), 16))
                continue
            x = table_lookup(tab, ch) if bool(sym_less(ch, 128, False)) else 255
            if bool(sym_eq(x, 255)):
                raise ValueError('non-hexadecimal number found in fromhex()')
            v.append(x & 15)
        out.append((v[0] << 4) | v[1])
    return tuple(out)


# ---------------------------------------------------------------------------
def ps(codes):
    """str or PStr from list of code points"""
    for c in codes:
        if type(c) is not int:
            r = object.__new__(PStr)
            r._c = tuple(codes)
            return r
    return ''.join(map(chr, codes))


def codes_of(s):
    if isinstance(s, PStr):
        return s._c
    return tuple(map(ord, s))


def is_str(x):
    return isinstance(x, (str, PStr))


class PStrMeta(type):
    def __call__(cls, *a, **kw):
        if not a and not kw:
            return ''
        x = a[0] if a else kw.get('object')
        if len(a) > 1 or 'encoding' in kw:
            return pb(to_seq(x)).decode(*(list(a[1:]) + list(kw.values())))
        if isinstance(x, (str, PStr)):
            return x
        if isinstance(x, PInt):
            return x.__str__()
        f = type(x).__str__
        if f is object.__str__:
            return x.__repr__()
        if isinstance(x, BaseException) or type(x).__module__ in ('builtins', 'enum', 'decimal'):
            return str(x)
        return f(x)

    def __getattr__(cls, name):
        return getattr(str, name)


_WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


class PStr(metaclass=PStrMeta):
    """symbolic string of concrete length (list of code points)"""
    __slots__ = ('_c',)

    def __len__(self): return len(self._c)

    def __iter__(self):
        for c in self._c:
            yield ps([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ps(self._c[norm_slice(i, len(self._c))])
        return ps([self._c[norm_index(i)]])

    def __add__(self, o):
        if not is_str(o):
            return NotImplemented
        return ps(self._c + codes_of(o))

    def __radd__(self, o):
        if not is_str(o):
            return NotImplemented
        return ps(codes_of(o) + self._c)

    def __mul__(self, n):
        return ps(self._c * n)

    def __eq__(self, o):
        if not is_str(o):
            return NotImplemented
        return eq_seq(self._c, codes_of(o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def __hash__(self):
        raise Unsupported('hash of symbolic string')

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        s = codes_of(x)
        n = len(s)
        return sym_disj(eq_seq(self._c[i:i + n], s) for i in range(len(self._c) - n + 1))

    def find(self, x, start=None, end=None):
        return find_sub(self._c, codes_of(x), start, end)

    def rfind(self, x, start=None, end=None):
        return find_sub(self._c, codes_of(x), start, end, True)

    def index(self, x, start=None, end=None):
        i = self.find(x, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, x, start=None, end=None):
        i = self.rfind(x, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_disj([self.startswith(x, start, end) for x in p])
        d = self._c[start:end]
        s = codes_of(p)
        return len(d) >= len(s) and eq_seq(d[:len(s)], s)

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return sym_disj([self.endswith(x, start, end) for x in p])
        d = self._c[start:end]
        s = codes_of(p)
        return len(d) >= len(s) and eq_seq(d[len(d) - len(s):], s)

    def _ascii_or_unsupported(self):
        for c in self._c:
            if is_sym(c) and len(bits_of(c)[0]) > 7:
                if bool(sym_less(127, c, False)):
                    raise Unsupported('case mapping of symbolic non-ascii character')

    def lower(self):
        self._ascii_or_unsupported()
        return ps([case_map(c, 'lower') for c in self._c])

    def upper(self):
        self._ascii_or_unsupported()
        return ps([case_map(c, 'upper') for c in self._c])

    def islower(self):
        self._ascii_or_unsupported()
        lo = sym_disj(sym.sym_and(sym_less(96, c, False), sym_less(c, 123, False)) for c in self._c)
        up = sym_disj(sym.sym_and(sym_less(64, c, False), sym_less(c, 91, False)) for c in self._c)
        return sym.sym_and(lo, sym_not(up))

    def isupper(self):
        self._ascii_or_unsupported()
        lo = sym_disj(sym.sym_and(sym_less(96, c, False), sym_less(c, 123, False)) for c in self._c)
        up = sym_disj(sym.sym_and(sym_less(64, c, False), sym_less(c, 91, False)) for c in self._c)
        return sym.sym_and(up, sym_not(lo))

    casefold = lower

    def isascii(self):
        return sym_conj(sym_less(c, 128, False) for c in self._c)

    def isprintable(self):
        self._ascii_or_unsupported()
        return sym_conj(sym.sym_and(sym_less(31, c, False), sym_less(c, 127, False)) for c in self._c)

    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('-', '').replace('_', '')
        for c in self._c:
            if bool(sym_less(127, c, False)):
                if enc in ('ascii', 'usascii'):
                    raise UnicodeEncodeError('ascii', '', 0, 1, 'ordinal not in range(128)')
                raise Unsupported('encoding symbolic non-ascii character')
        return pb([mk(bits_of(c)[0][:8], False) if is_sym(c) else c for c in self._c])

    def join(self, items):
        out = []
        first = True
        for it in items:
            if not first:
                out.extend(self._c)
            first = False
            if not is_str(it):
                raise TypeError('sequence item: expected str instance, %s found' % type(it).__name__)
            out.extend(codes_of(it))
        return ps(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('whitespace split of symbolic string')
        s = codes_of(sep)
        out = []
        cur = 0
        i = 0
        d = self._c
        while i + len(s) <= len(d) and (maxsplit < 0 or len(out) < maxsplit):
            if bool(eq_seq(d[i:i + len(s)], s)):
                out.append(ps(d[cur:i]))
                i += len(s)
                cur = i
            else:
                i += 1
        out.append(ps(d[cur:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported('rsplit')
        i = self.rfind(sep)
        if i < 0:
            return [self]
        return [ps(self._c[:i]), ps(self._c[i + len(sep):])]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return ps(self._c[:i]), sep, ps(self._c[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return ps(self._c[:i]), sep, ps(self._c[i + len(sep):])

    def removeprefix(self, p):
        if bool(self.startswith(p)):
            return ps(self._c[len(p):])
        return self

    def strip(self, chars=None): return self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        cs = codes_of(_WS if chars is None else chars)
        d = self._c
        i = 0
        while i < len(d) and bool(sym_disj(sym_eq(d[i], c) for c in cs)):
            i += 1
        return PStrWrap(ps(d[i:]))

    def rstrip(self, chars=None):
        cs = codes_of(_WS if chars is None else chars)
        d = self._c
        i = len(d)
        while i > 0 and bool(sym_disj(sym_eq(d[i - 1], c) for c in cs)):
            i -= 1
        return ps(d[:i])

    def __lt__(self, o): return less_codes(self._c, codes_of(o), False)
    def __le__(self, o): return less_codes(self._c, codes_of(o), True)
    def __gt__(self, o): return less_codes(codes_of(o), self._c, False)
    def __ge__(self, o): return less_codes(codes_of(o), self._c, True)

    def __repr__(self): return "'<symstr %d>'" % len(self._c)
    def __str__(self): return self
    def __format__(self, spec): return '<symstr>'
    def __mod__(self, o): raise Unsupported('% on symbolic string')

    def __getattr__(self, name):
        if hasattr(str, name) and not name.startswith('__'):
            raise Unsupported('str.%s on symbolic string' % name)
        raise AttributeError(name)


def PStrWrap(x):
    return x


def less_codes(a, b, oreq):
    for x, y in zip(a, b):
        if bool(sym_less(x, y, False)):
            return True
        if bool(sym_less(y, x, False)):
            return False
    return len(a) <= len(b) if oreq else len(a) < len(b)


def case_map(c, how):
    if not is_sym(c):
        r = getattr(chr(c), how)()
        if len(r) != 1:
            raise Unsupported('case mapping changes length')
        return ord(r)
    tab = tuple(ord(getattr(chr(i), how)()) for i in range(128))
    b, s = bits_of(c)
    if s:
        raise Unsupported('signed char')
    return table_term(tab, mk(b[:7], False), 7)


def str_to_int(s, base=10):
    if is_sym(base):
        base = int(base)
    v = 0
    for c in s._c:
        if not is_sym(c):
            d = int(chr(c), base)
        else:
            tab = [255] * 128
            for i in range(min(base, 10)):
                tab[48 + i] = i
            for i in range(10, base):
                tab[65 + i - 10] = i
                tab[97 + i - 10] = i
            if not bool(sym_less(c, 128, False)):
                raise Unsupported('int() of non-ascii')
            d = table_lookup(tab, c)
            if bool(sym_eq(d, 255)):
                raise ValueError('invalid literal for int()')
        v = v * base + d
    return v


class Text(str):
    """a concrete placeholder for a text that stands for symbolic bytes"""
    def __repr__(self):
        return 'Text'
