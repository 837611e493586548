"""models installed on loaded modules (third-party primitives replaced by
abstract functions when their arguments are symbolic)"""
from . import sym, shims
from .pbytes import PBytes, pb, to_seq


def any_sym(seq):
    return any(sym.is_sym(e) for e in seq)


def _compress_token(state, block):
    """32 digest bytes of the abstract SHA-256 compression function"""
    return shims.token('sha256-compress', list(state) + list(block), 32)


def patch_sha256(m):
    orig = m.CSHA256.Transform
    cache = {}

    def Transform(self, chunk, blocks):
        chunk = list(to_seq(chunk))
        for k in range(int(blocks)):
            blk = chunk[64 * k:64 * k + 64]
            state = []
            for w in self.s:
                b = shims.pbytes.int_to_bytes(w, 4, 'big', False)
                state.extend(to_seq(b))
            if any_sym(blk) or any_sym(state):
                t = _compress_token(state, blk)
                self.s = [shims.pbytes.int_from_bytes(pb(t[4 * i:4 * i + 4]), 'big', False) for i in range(8)]
            else:
                key = (tuple(state), tuple(blk))
                r = cache.get(key)
                if r is None:
                    orig(self, bytes(blk), 1)
                    cache[key] = list(self.s)
                else:
                    self.s = list(r)
    m.CSHA256.Transform = Transform


def patch_refsha(m):
    orig = m.compress

    def compress(state, block):
        s, b = list(to_seq(state)), list(to_seq(block))
        if any_sym(s) or any_sym(b):
            return pb(_compress_token(s, b))
        return orig(bytes(s), bytes(b))
    m.compress = compress


PATCHES = {'bitcointx.core.sha256': patch_sha256, 'harness.refsha': patch_refsha}


def patch_script(m):
    orig = m.CScriptOp.__new__

    def __new__(cls, n):
        if sym.is_sym(n):
            # the table of opcode instances has one entry per byte value
            if bool(sym.sym_or(sym.sym_less(n, 0, False), sym.sym_less(255, n, False))):
                raise sym.Unsupported('symbolic opcode outside 0..255')
            return sym.PInt.__new__(cls, n)
        return orig(cls, n)
    m.CScriptOp.__new__ = staticmethod(__new__)


PATCHES['bitcointx.core.script'] = patch_script


def patch_ripemd160(m):
    orig = m.ripemd160
    cache = {}

    def ripemd160(data):
        d = list(to_seq(data))
        if any_sym(d):
            return pb(shims.token('ripemd160', d, 20))
        d = bytes(d)
        r = cache.get(d)
        if r is None:
            r = cache[d] = orig(d)
        return r
    m.ripemd160 = ripemd160


PATCHES['bitcointx.core._ripemd160'] = patch_ripemd160
