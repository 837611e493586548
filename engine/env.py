"""symbolic environment handed to a harness"""
import z3
from . import sym, shims
from .sym import PInt, SymBool, PathAbort, EngineSignal, Unsupported, Inconclusive, mk, is_sym
from . import pbytes
from .pbytes import PBytes, PStr, pb, ps


class Violation(EngineSignal):
    def __init__(self, label, models):
        self.label = label
        self.models = models


class SymEnv:
    sym = True
    seen = {}       # how often each violation was seen in this part of the exploration

    def __init__(self, ctx, job, tier, seed):
        self.ctx = ctx
        self.job = job
        self.tier = tier
        self.seed = seed
        self.inputs = []          # (name, kind, payload)
        self._names = {}
        self.labels = set()
        self.checks = {}
        self.trivial = 0
        self.evals = []

    def _name(self, name):
        n = self._names.get(name, 0) + 1
        self._names[name] = n
        return name if n == 1 else '%s.%d' % (name, n)

    # ---- inputs
    def bytes(self, name, n):
        n = int(n)
        name = self._name(name)
        if n == 0:
            self.inputs.append((name, 'const', b''))
            return pb(b'')
        if n <= 512:
            # one variable per byte: independent bytes stay in independent solver queries
            out, terms = [], []
            for i in range(n):
                var, sup = self.ctx.new_var('%s[%d]' % (name, i), 8)
                out.append(mk(self.ctx.term_bits(var, sup), False))
                terms.append(var)
            self.inputs.append((name, 'bytelist', terms))
            return pb(out)
        var, sup = self.ctx.new_var(name, 8 * n)
        bits = self.ctx.term_bits(var, sup)
        self.inputs.append((name, 'bytes', (var, n)))
        # byte i of the buffer is bits 8i..8i+7 of the variable
        return pb([mk(bits[8 * i:8 * i + 8], False) for i in range(n)])

    def int(self, name, lo, hi):
        name = self._name(name)
        if lo == hi:
            self.inputs.append((name, 'const', lo))
            return lo
        signed = lo < 0
        w = max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + (1 if signed else 0)
        var, sup = self.ctx.new_var(name, w)
        bits = self.ctx.term_bits(var, sup)
        self.inputs.append((name, 'sint' if signed else 'uint', (var, w)))
        x = mk(bits, signed)
        full_hi = (1 << (w - 1)) - 1 if signed else (1 << w) - 1
        full_lo = -(1 << (w - 1)) if signed else 0
        if lo > full_lo:
            self.ctx.assume(sym.sym_less(lo, x, True))
        if hi < full_hi:
            self.ctx.assume(sym.sym_less(x, hi, True))
        return x

    def bool(self, name):
        name = self._name(name)
        var, sup = self.ctx.new_var(name, 1)
        self.inputs.append((name, 'bool', (var, 1)))
        return sym.from_bit(self.ctx.term_bits(var, sup)[0])

    def str(self, name, n, maxcode=127):
        """string of n characters with code points 0..maxcode"""
        w = maxcode.bit_length()
        name = self._name(name)
        if n == 0:
            self.inputs.append((name, 'const', ''))
            return ''
        out = []
        terms = []
        for i in range(n):
            var, sup = self.ctx.new_var('%s[%d]' % (name, i), w)
            bits = self.ctx.term_bits(var, sup)
            c = mk(bits, False)
            if maxcode + 1 != 1 << w:
                self.ctx.assume(sym.sym_less(c, maxcode, True))
            out.append(c)
            terms.append(var)
        self.inputs.append((name, 'str', terms))
        return ps(out)

    def choose(self, name, options):
        """fork over a list of options"""
        name = self._name(name)
        i = self.ctx.choice(len(options))
        self.inputs.append((name, 'const', i))
        return options[i]

    def split(self, x):
        """fork over the feasible values of a symbolic integer / condition"""
        if isinstance(x, SymBool):
            return bool(x)
        return sym.CX.concretize(x) if is_sym(x) else x

    # ---- statements
    def assume(self, c):
        c = shims.PBool(c)
        if isinstance(c, SymBool):
            c = c.simplified()
        if isinstance(c, SymBool):
            if self.ctx.pos >= len(self.ctx.prefix):
                if self.ctx.sat(c.z3(), c.sup()) == 'unsat':
                    raise PathAbort()
            self.ctx.assume(c)
        elif not c:
            raise PathAbort()

    def check(self, c, label):
        c = shims.PBool(c)
        self.checks[label] = self.checks.get(label, 0) + 1
        if not isinstance(c, SymBool) and c:
            self.trivial += 1
            return
        r = self.ctx.is_valid(c)
        if r == 'yes':
            return
        if r == 'unknown':
            raise Inconclusive('solver gave no answer for check %r' % label)
        if self.seen.get(label, 0) >= 3:
            raise Violation(label, [])
        z = sym.sym_not(c) if isinstance(c, SymBool) else z3.BoolVal(True)
        ms = self.models([z])
        if not ms:
            # the path itself may have become infeasible
            raise Inconclusive('no model for failed check %r' % label)
        raise Violation(label, ms)

    def fail(self, label):
        self.check(False, label)

    def certain(self, c):
        """whether c follows syntactically from the path (no split)"""
        c = shims.PBool(c)
        if isinstance(c, SymBool):
            c = c.simplified()
        return c is True

    def urandom(self, f):
        """os.urandom answers with f(n)"""
        self.ctx.store['urandom'] = f

    def text_token(self, data):
        """a text that stands for the given bytes; see text_bytes"""
        n = self._texts = getattr(self, '_texts', 0) + 1
        t = pbytes.Text('~' + 'abcdefghij'[n % 10] * (n // 10 + 1) + '~')
        t.data = data
        return t

    def text_bytes(self, t):
        return t.data if type(t) is pbytes.Text else None

    def reach(self, label):
        self.labels.add(label)

    # ---- models
    def models(self, extra=(), count=4, timeout=None):
        out = []
        block = []
        for k in range(count):
            terms = []
            if k & 1:
                for name, kind, p in self.inputs:
                    if kind in ('bytelist', 'str'):
                        terms.extend(p)
                    elif kind != 'const':
                        terms.append(p[0])
            m = self.ctx.model(extra, seed=self.seed * 16 + k, block=block, timeout=timeout, diverse=terms)
            if m is None:
                if k == 0 and (timeout or self.ctx.model(extra, seed=0) is None):
                    return out
                break
            vals = {}
            neq = []
            for name, kind, p in self.inputs:
                if kind == 'const':
                    vals[name] = p
                    continue
                if kind == 'bytelist':
                    d = [m.eval(v, model_completion=True).as_long() for v in p]
                    vals[name] = bytes(d)
                    neq.extend(v != z3.BitVecVal(x, 8) for v, x in zip(p, d))
                    continue
                if kind == 'str':
                    s = [m.eval(v, model_completion=True).as_long() for v in p]
                    vals[name] = ''.join(map(chr, s))
                    neq.extend(v != z3.BitVecVal(x, v.size()) for v, x in zip(p, s))
                    continue
                var, n = p
                v = m.eval(var, model_completion=True).as_long()
                neq.append(var != z3.BitVecVal(v, var.size()))
                if kind == 'bytes':
                    vals[name] = v.to_bytes(n, 'little')
                elif kind == 'uint':
                    vals[name] = v
                elif kind == 'sint':
                    vals[name] = v - (1 << n) if v >> (n - 1) else v
                else:
                    vals[name] = bool(v)
            out.append(vals)
            if not neq:
                break
            block = block + [z3.Or(*neq)]
        return out
