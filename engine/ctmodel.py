"""a model of the parts of ctypes the code uses (buffers, integers, pointers)"""
import types
from . import sym
from .sym import PInt, SymBool, Unsupported, is_sym, conc, mk, bits_of, ext, numeric
from .pbytes import PBytes, PBytearray, pb, seq, to_seq, elem, is_bytes_like


class ArgumentError(Exception):
    pass


class Array:
    pass


def _int(x):
    x = conc(x)
    if is_sym(x):
        return sym.CX.concretize(x) if isinstance(x, PInt) else int(bool(x))
    return int(x)


class CharBuf(Array):
    """char array"""

    def __init__(self, d):
        self._d = list(d)

    def __len__(self):
        return len(self._d)

    @property
    def raw(self):
        return pb(self._d)

    @property
    def _pbuf(self):
        # buffer protocol
        return list(self._d)

    @raw.setter
    def raw(self, v):
        s = seq(v)
        if len(s) > len(self._d):
            raise ValueError('byte string too long')
        self._d[:len(s)] = list(s)

    @property
    def value(self):
        out = []
        for e in self._d:
            if bool(sym.sym_eq(e, 0)):
                break
            out.append(e)
        return pb(out)

    @value.setter
    def value(self, v):
        s = list(seq(v))
        if len(s) > len(self._d):
            raise ValueError('byte string too long')
        self._d[:len(s)] = s
        if len(s) < len(self._d):
            self._d[len(s)] = 0

    def __getitem__(self, i):
        if isinstance(i, slice):
            return pb(self._d[slice(*(None if v is None else _int(v) for v in (i.start, i.stop, i.step)))])
        return pb([self._d[_int(i)]])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            s = list(seq(v))
            idx = range(len(self._d))[i]
            if len(idx) != len(s):
                raise ValueError('Can only assign sequence of same size')
            for k, e in zip(idx, s):
                self._d[k] = e
        else:
            s = seq(v)
            if len(s) != 1:
                raise TypeError('one character bytes, bytearray or integer expected')
            self._d[_int(i)] = s[0]

    def __iter__(self):
        for e in self._d:
            yield pb([e])

    def __repr__(self):
        return '<ctypes buffer %d>' % len(self._d)

    def __buffer__(self, flags):
        return memoryview(pb(self._d).tobytes())


def create_string_buffer(init, size=None):
    if is_bytes_like(init):
        if isinstance(init, (PBytearray, bytearray)):
            raise TypeError(init)
        s = list(seq(init))
        n = len(s) + 1 if size is None else _int(size)
        if len(s) > n:
            raise ValueError('byte string too long')
        return CharBuf(s + [0] * (n - len(s)))
    if numeric(init):
        n = _int(init)
        if n < 0:
            raise ValueError('Array length must be >= 0, not %d' % n)
        return CharBuf([0] * n)
    raise TypeError(init)


class PtrVal:
    """result of cast(): a pointer to a model object"""
    def __init__(self, obj, typ=None):
        self.obj = obj

    @property
    def value(self):
        return self.obj.value if isinstance(self.obj, CharBuf) else self.obj


class Ref:
    def __init__(self, obj):
        self.obj = obj

    @property
    def _obj(self):
        return self.obj


class TypeMeta(type):
    def __mul__(cls, n):
        n = _int(n)
        if n < 0:
            raise ValueError('Array length must be >= 0')
        return ArrayType(cls, n)
    __rmul__ = __mul__


class ArrayType:
    def __init__(self, el, n):
        self.el, self.n = el, n

    def __call__(self, *vals):
        if self.el is c_char:
            return CharBuf([0] * self.n)
        if len(vals) > self.n:
            raise IndexError('invalid index')
        a = ElemArray(self.el, self.n)
        for i, v in enumerate(vals):
            a[i] = v
        return a

    def from_param(self, x):
        return x

    def __mul__(self, n):
        raise Unsupported('nested ctypes array')


class ElemArray(Array):
    def __init__(self, el, n):
        self.el = el
        self._e = [el.default()] * n

    def __len__(self):
        return len(self._e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return [self.el.get(x) for x in self._e[i]]
        return self.el.get(self._e[_int(i)])

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('ctypes array slice assignment')
        self._e[_int(i)] = self.el.set(v)

    def __iter__(self):
        for x in self._e:
            yield self.el.get(x)


class SimpleInt(metaclass=TypeMeta):
    width = 32
    signed = True

    def __init__(self, value=0):
        self._val = self.set(value)

    @classmethod
    def default(cls):
        return 0

    @classmethod
    def get(cls, x):
        return x

    @classmethod
    def set(cls, v):
        if isinstance(v, SimpleInt):
            v = v._val
        v = conc(v)
        if not numeric(v):
            f = getattr(type(v), '__index__', None)
            if f is None:
                raise TypeError('an integer is required (got type %s)' % type(v).__name__)
            v = f(v)
        if isinstance(v, SymBool):
            v = v.pint()
        b, s = bits_of(v)
        b = ext(b, s, cls.width)
        return mk(b, cls.signed)

    @property
    def value(self):
        return self._val

    @value.setter
    def value(self, v):
        self._val = self.set(v)

    @classmethod
    def from_param(cls, x):
        if isinstance(x, cls):
            return x
        return cls(x)


def _simple(name, w, s):
    return TypeMeta(name, (SimpleInt,), {'width': w, 'signed': s})


c_int = _simple('c_int', 32, True)
c_uint = _simple('c_uint', 32, False)
c_long = _simple('c_long', 64, True)
c_ulong = _simple('c_ulong', 64, False)
c_int64 = _simple('c_int64', 64, True)
c_uint64 = _simple('c_uint64', 64, False)
c_int32 = c_int
c_uint32 = c_uint
c_size_t = _simple('c_size_t', 64, False)
c_ubyte = _simple('c_ubyte', 8, False)
c_uint8 = c_ubyte
c_byte = _simple('c_byte', 8, True)


class c_char(metaclass=TypeMeta):
    pass


class c_char_p(metaclass=TypeMeta):
    def __init__(self, v=None):
        self._val = self.set(v)

    @property
    def value(self):
        return self.get(self._val)

    @staticmethod
    def default():
        return None

    @staticmethod
    def set(v):
        if v is None or isinstance(v, (PBytes, bytes, PtrVal)):
            return v
        if isinstance(v, c_char_p):
            return v._val
        raise TypeError('bytes or integer address expected instead of %s instance' % type(v).__name__)

    @staticmethod
    def get(v):
        if v is None:
            return None
        raise Unsupported('reading back a char pointer')

    @staticmethod
    def from_param(x):
        if x is None or isinstance(x, (PBytes, bytes, CharBuf, PtrVal, c_char_p)):
            return x
        if isinstance(x, Ref) and isinstance(x.obj, CharBuf):
            return x
        raise TypeError("'%s' object cannot be interpreted as c_char_p" % type(x).__name__)


class c_void_p(metaclass=TypeMeta):
    def __init__(self, v=None):
        self._val = v.value if isinstance(v, c_void_p) else v

    @property
    def value(self):
        return self._val

    @value.setter
    def value(self, v):
        self._val = v

    def __bool__(self):
        return bool(self._val)

    @staticmethod
    def default():
        return None

    @staticmethod
    def set(v):
        return v

    @staticmethod
    def get(v):
        return v

    @staticmethod
    def from_param(x):
        if x is None or isinstance(x, (c_void_p, Array, PBytes, bytes, Ref, PtrVal, int, PInt, c_char_p)):
            return x
        if getattr(x, '_cfunc', False):
            return x
        raise TypeError('wrong type')


class PointerType:
    def __init__(self, el):
        self.el = el

    def from_param(self, x):
        if x is None:
            return x
        if isinstance(x, Ref):
            if not isinstance(x.obj, self.el):
                raise TypeError('expected LP_%s instance instead of pointer to %s' % (self.el.__name__,
                                                                                     type(x.obj).__name__))
            return x
        if isinstance(x, ElemArray):
            if x.el is not self.el:
                raise TypeError('wrong array type')
            return x
        if isinstance(x, self.el):
            return Ref(x)
        raise TypeError('expected LP_%s instance instead of %s' % (self.el.__name__, type(x).__name__))

    def __call__(self, x=None):
        return Ref(x)


def POINTER(t):
    return PointerType(t)


def byref(x, offset=0):
    if offset:
        raise Unsupported('byref offset')
    if not isinstance(x, (SimpleInt, c_char_p, c_void_p, Array)):
        raise TypeError('byref() argument must be a ctypes instance')
    return Ref(x)


def cast(obj, typ):
    if isinstance(obj, Ref):
        obj = obj.obj
    return PtrVal(obj, typ)


def memset(buf, v, n):
    for i in range(_int(n)):
        buf._d[i] = elem(v)


def memmove(dst, src, n):
    d = list(src._d if isinstance(src, CharBuf) else seq(src))[:_int(n)]
    dst._d[:len(d)] = d


def sizeof(x):
    if isinstance(x, CharBuf):
        return len(x._d)
    if isinstance(x, SimpleInt):
        return x.width // 8
    if isinstance(x, type) and issubclass(x, SimpleInt):
        return x.width // 8
    raise Unsupported('sizeof')


def string_at(p, n=-1):
    o = p.obj if isinstance(p, (PtrVal, Ref)) else p
    d = o._d if isinstance(o, CharBuf) else seq(o)
    n = _int(n)
    if n < 0:
        raise Unsupported('string_at without size')
    return pb(d[:n])


def _ptr_item(arr, i):
    e = arr._e[_int(i)]
    if isinstance(e, PtrVal):
        e = e.obj
    if isinstance(e, Ref):
        e = e.obj
    if e is None:
        raise Unsupported('null pointer')
    return e


def pointee(arr, i):
    e = arr._e[_int(i)]
    while isinstance(e, (PtrVal, Ref, c_char_p)):
        e = e._val if isinstance(e, c_char_p) else e.obj
    return e


def read_ptr(arr, i, n):
    """bytes behind an element of an array of char pointers"""
    e = _ptr_item(arr, i)
    d = e._d if isinstance(e, CharBuf) else seq(e)
    if len(d) < n:
        raise Unsupported('read beyond a buffer')
    return pb(list(d)[:n])


def write_ptr(arr, i, data):
    e = _ptr_item(arr, i)
    if not isinstance(e, CharBuf):
        raise Unsupported('write through a pointer to an immutable object')
    d = list(seq(data))
    if len(d) > len(e._d):
        raise Unsupported('write beyond a buffer')
    e._d[:len(d)] = d


class CFunc:
    _cfunc = True

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


def CFUNCTYPE(*a, **k):
    return CFunc


class CDLL:
    def __init__(self, *a, **k):
        raise OSError('native libraries are modelled')


m_ctypes = types.ModuleType('ctypes')
for _n in ('Array', 'create_string_buffer', 'c_int', 'c_uint', 'c_long', 'c_ulong', 'c_int64', 'c_uint64',
           'c_int32', 'c_uint32', 'c_size_t', 'c_ubyte', 'c_uint8', 'c_byte', 'c_char', 'c_char_p',
           'c_void_p', 'POINTER', 'byref', 'cast', 'memset', 'memmove', 'sizeof', 'string_at', 'CFUNCTYPE',
           'CDLL', 'ArgumentError', 'read_ptr', 'write_ptr', 'pointee'):
    setattr(m_ctypes, _n, globals()[_n])
m_ctypes.WINFUNCTYPE = CFUNCTYPE
m_ctypes.pointer = byref
m_ctypes.addressof = id
m_ctypes.cdll = types.SimpleNamespace(LoadLibrary=CDLL)
m_ctypes_util = types.ModuleType('ctypes.util')
m_ctypes_util.find_library = lambda name: None
m_ctypes.util = m_ctypes_util
