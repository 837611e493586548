"""Symbolic values and the path context.

Integers are vectors of bits; every bit is a GF(2)-linear form over "atoms"
(bit k of a z3 bit-vector term), stored as a Python int mask (bit 0 of the mask
is the constant 1).  xor/shift/mask/concatenation stay linear, everything else
introduces a new z3 term.  Path conditions that are linear equations are also
kept in a Gaussian-eliminated form, so xor-heavy code (checksums) never reaches
the SAT solver.
"""
import itertools
import time
import random
import z3


class EngineSignal(BaseException):
    """Base of all path-steering exceptions (never caught by code under test)"""


class PathAbort(EngineSignal):
    """the current path is infeasible / assumed away"""


class SpecFail(EngineSignal):
    """speculative (merged) evaluation needs a fork"""


class Unsupported(EngineSignal):
    """the code uses something the encoding cannot express"""


class Inconclusive(EngineSignal):
    pass


STATS = dict(queries=0, cache_hits=0, solver_time=0.0, unknown=0, linear=0)
SOLVER_TIMEOUT_MS = 60000
_SAT_CACHE = {}
_VAL_CACHE = {}
_KEEP = []          # keeps z3 asts alive so that ids stay unique
_KEEP_IDS = set()
_VARS = {}


def keep(e):
    i = e.get_id()
    if i not in _KEEP_IDS:
        _KEEP_IDS.add(i)
        _KEEP.append(e)
    return i


def reset_caches():
    _SAT_CACHE.clear()
    _VAL_CACHE.clear()
    _KEEP.clear()
    _KEEP_IDS.clear()


ARITH_SUP = 1  # support bit 0 flags expressions that are not pure QF_BV


class Ctx:
    """one symbolic path"""

    paths = 0

    def __init__(self, prefix=()):
        Ctx.paths += 1
        self.path_id = Ctx.paths  # no two paths of a process hash anything symbolic alike
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alternatives = []
        self.nofork = 0
        self.atom_term = [None]
        self.atom_k = [0]
        self.atom_sup = [0]
        self.atom_raw = [False]
        self.term_base = {}
        self.nvars = 1            # support bit 0 is reserved
        self.rows = {}            # pivot bit index -> reduced row mask
        self.pivmask = 0
        self.comps = []           # list of [supmask, {id: expr}]
        self.known = {}           # condition key -> bool
        self.cons = []
        self.inputs = []          # (name, kind, payload)
        self.bvcache = {}
        self.forks = 0
        self.nat = 0
        self.store = {}           # free-form per-path storage for models
        self.labels = []
        self.checks = 0
        self.discharged_trivially = 0
        self.violation = None
        self.max_trace = 20000

    # ---- atoms -------------------------------------------------------
    def new_var(self, name, width):
        t = _VARS.get((name, width))
        if t is None:
            t = _VARS[(name, width)] = z3.BitVec(name, width)
        sup = 1 << self.nvars
        self.nvars += 1
        return t, sup

    def new_bool(self, name):
        t = z3.Bool(name)
        sup = 1 << self.nvars
        self.nvars += 1
        return t, sup

    def term_bits(self, term, sup, width=None):
        """bits (LSB first) of a z3 bit-vector or Bool term as atom masks"""
        i = keep(term)
        base = self.term_base.get(i)
        isbool = z3.is_bool(term)
        if width is None:
            width = 1 if isbool else term.size()
        if base is None:
            base = len(self.atom_term)
            self.term_base[i] = base
            raw = z3.is_const(term) and term.decl().kind() == z3.Z3_OP_UNINTERPRETED
            self.atom_raw.extend([raw] * width)
            for k in range(width):
                self.atom_term.append(term)
                self.atom_k.append(-1 if isbool else k)
                self.atom_sup.append(sup)
        return tuple(1 << (base + k) for k in range(width))

    def sup_of_mask(self, m):
        s = 0
        m >>= 1
        i = 1
        asup = self.atom_sup
        while m:
            tz = (m & -m).bit_length() - 1
            i += tz
            s |= asup[i]
            m >>= tz + 1
            i += 1
        return s

    def sup_of_bits(self, bits):
        s = 0
        for m in bits:
            if m > 1:
                a = m & ~1
                if a & (a - 1) == 0:
                    s |= self.atom_sup[a.bit_length() - 1]
                else:
                    s |= self.sup_of_mask(m)
        return s

    # ---- linear algebra ---------------------------------------------
    def reduce(self, m):
        h = m & self.pivmask
        if h:
            rows = self.rows
            while h:
                p = h.bit_length() - 1
                m ^= rows[p]
                h ^= 1 << p
        return m

    def add_row(self, m):
        """assert mask == 0; returns False on contradiction"""
        m = self.reduce(m)
        if m == 0:
            return True
        if m == 1:
            return False
        p = m.bit_length() - 1
        bit = 1 << p
        rows = self.rows
        for q, r in rows.items():
            if r & bit:
                rows[q] = r ^ m
        rows[p] = m
        self.pivmask |= bit
        return True

    # ---- z3 conversion ----------------------------------------------
    def bv(self, bits):
        """z3 bit-vector of the bits (LSB first)"""
        r = self.bvcache.get(bits)
        if r is not None:
            return r
        parts = []   # LSB first
        n = len(bits)
        i = 0
        aterm, ak = self.atom_term, self.atom_k
        while i < n:
            m = bits[i]
            if m <= 1:
                v = 0
                j = i
                while j < n and bits[j] <= 1:
                    v |= bits[j] << (j - i)
                    j += 1
                parts.append(z3.BitVecVal(v, j - i))
                i = j
                continue
            a = m & ~1
            if a & (a - 1) == 0:
                idx = a.bit_length() - 1
                term = aterm[idx]
                k = ak[idx]
                if k < 0:
                    e = z3.If(term, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                    if m & 1:
                        e = ~e
                    parts.append(e)
                    i += 1
                    continue
                inv = m & 1
                j = i + 1
                while j < n:
                    want = 1 << (idx + j - i)
                    if (bits[j] & ~1) != want:
                        break
                    jj = idx + j - i
                    if aterm[jj] is not term or ak[jj] != k + j - i:
                        break
                    inv |= (bits[j] & 1) << (j - i)
                    j += 1
                w = j - i
                e = term if (k == 0 and w == term.size()) else z3.Extract(k + w - 1, k, term)
                if inv:
                    e = e ^ z3.BitVecVal(inv, w)
                parts.append(e)
                i = j
                continue
            # general linear form
            e = None
            mm = m
            while mm:
                p = mm.bit_length() - 1
                mm ^= 1 << p
                if p == 0:
                    x = z3.BitVecVal(1, 1)
                elif ak[p] < 0:
                    x = z3.If(aterm[p], z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
                else:
                    x = z3.Extract(ak[p], ak[p], aterm[p])
                e = x if e is None else e ^ x
            parts.append(e)
            i += 1
        if len(parts) == 1:
            r = parts[0]
        else:
            r = z3.Concat(*reversed(parts))
        self.bvcache[bits] = r
        return r

    # ---- solver ------------------------------------------------------
    def slice_for(self, sup):
        exprs = {}
        for s, es in self.comps:
            if s & sup & ~ARITH_SUP:
                exprs.update(es)
        r = {}
        for c, value in exprs.values():
            e = c.z3() if value else z3.Not(c.z3())
            r[keep(e)] = e
        return r

    def all_exprs(self):
        out = []
        for s, es in self.comps:
            for c, value in es.values():
                out.append(c.z3() if value else z3.Not(c.z3()))
        return out

    def add_constraint(self, c, value):
        i = len(self.cons)
        sup = c.sup()
        self.cons.append(c)
        merged = {i: (c, value)}
        nsup = sup
        rest = []
        for c in self.comps:
            if c[0] & sup & ~ARITH_SUP:
                nsup |= c[0]
                merged.update(c[1])
            else:
                rest.append(c)
        rest.append([nsup, merged])
        self.comps = rest

    def sat(self, expr, sup, c=None, value=True):
        """solver verdict on path condition + expr (the z3 form of c == value)"""
        if c is not None and not sup & ARITH_SUP and self.heavy(sup, c):
            if self.linear_witness([(c, value)], sup) is not None:
                STATS['linear'] += 1
                return 'sat'
        exprs = self.slice_for(sup)
        return solve(list(exprs.values()) + [expr])

    # ---- witnesses for mostly linear problems -------------------------
    def heavy(self, sup, c=None):
        """do wide parities occur in this part of the path condition?"""
        n = 0
        cs = [c] if c is not None and c.eqs is not None else []
        for s, es in self.comps:
            if s & sup & ~ARITH_SUP:
                cs.extend(x for x, v in es.values() if x.eqs is not None)
        for x in cs:
            for m in x.eqs:
                if m.bit_count() > 5:
                    n += 1
                    if n >= 4:
                        return True
        return False

    def linear_witness(self, extra, sup, rnd=None):
        """sound search for a model of the constraints connected to sup: values for the variables that occur in
        non-linear terms come from a solver query over these terms alone, the rest is linear algebra over GF(2).
        Returns (rows, pivot mask, z3 model, list of excluded subspaces) or None when nothing was found"""
        cons = list(extra)
        for s, es in self.comps:
            if s & sup & ~ARITH_SUP:
                cons.extend(es.values())
        for c, v in cons:
            sup |= c.sup()
        if sup & ARITH_SUP:
            return None
        save = self.rows, self.pivmask
        self.rows, self.pivmask = dict(self.rows), self.pivmask
        try:
            nl, neg = [], []
            used = 0
            for c, v in cons:
                if c.eqs is None:
                    nl.append(c.z3() if v else z3.Not(c.z3()))
                    continue
                for m in c.eqs:
                    used |= m
                if (not c.neg) == v:
                    for m in c.eqs:
                        if not self.add_row(m):
                            return None
                else:
                    neg.append(c)
            for m in self.rows.values():
                used |= m
            # variables with a fixed value: those under non-linear constraints and derived atoms
            nsup = 0
            for c, v in cons:
                if c.eqs is None:
                    nsup |= c.sup()
            derived = []
            m = used & ~1
            araw, asup = self.atom_raw, self.atom_sup
            raws = []
            while m:
                b = m & -m
                m ^= b
                i = b.bit_length() - 1
                if araw[i]:
                    raws.append(i)
                elif asup[i] & sup:
                    derived.append(i)
                    nsup |= asup[i]
            z = None
            if nsup:
                s = new_solver()
                if rnd is not None:
                    s.set('random_seed', rnd)
                for e in nl:
                    s.add(e)
                if s.check() != z3.sat:
                    return None
                z = s.model()
                for i in raws + derived:
                    if asup[i] & nsup:
                        t = self.atom_term[i]
                        x = z.eval(t, model_completion=True)
                        if self.atom_k[i] < 0:
                            bit = int(z3.is_true(x))
                        else:
                            bit = x.as_long() >> self.atom_k[i] & 1
                        if not self.add_row((1 << i) | bit):
                            return None
            # union bound over the excluded subspaces
            left = 1.0
            for c in neg:
                left -= 2.0 ** -self.codim(c.eqs)
            if left <= 0:
                return None
            return self.rows, self.pivmask, z, neg
        finally:
            self.rows, self.pivmask = save

    def codim(self, eqs):
        """number of independent equations; a contradiction excludes nothing"""
        basis = {}
        n = 0
        for m in eqs:
            m = self.reduce(m)
            while m > 1:
                p = m.bit_length() - 1
                if p not in basis:
                    basis[p] = m
                    n += 1
                    break
                m ^= basis[p]
            if m == 1:
                return 10 ** 6
        return n

    def witness_values(self, extra, sup, rng):
        """z3 equalities that fix every variable bit of a witness, or None"""
        w = self.linear_witness(extra, sup)
        if w is None:
            return None
        rows, piv, z, neg = w
        used = 0
        for m in rows.values():
            used |= m
        for c in neg:
            for m in c.eqs:
                used |= m
        for attempt in range(40):
            ones = 1
            m = used & ~1 & ~piv
            while m:
                b = m & -m
                m ^= b
                if attempt and rng.random() < 0.5:
                    ones |= b
            for p, r in rows.items():
                if (r & ~(1 << p) & ones).bit_count() & 1:
                    ones |= 1 << p
            if all(any((m & ones).bit_count() & 1 for m in c.eqs) for c in neg):
                out = []
                m = used & ~1
                while m:
                    b = m & -m
                    m ^= b
                    i = b.bit_length() - 1
                    if self.atom_raw[i] and self.atom_k[i] >= 0:
                        k = self.atom_k[i]
                        out.append(z3.Extract(k, k, self.atom_term[i]) == (1 if ones & b else 0))
                return out
        return None

    # ---- decisions ---------------------------------------------------
    def record(self, entry):
        self.trace.append(entry)
        if len(self.trace) > self.max_trace:
            raise Unsupported('path too long')

    def assume(self, c, value=True):
        """add c == value to the path condition (no feasibility check)"""
        if not isinstance(c, SymBool):
            if bool(c) != value:
                raise PathAbort()
            return
        c = c.simplified()
        if not isinstance(c, SymBool):
            if c != value:
                raise PathAbort()
            return
        if c.eqs is not None and (not c.neg) == value:
            for m in c.eqs:
                if not self.add_row(m):
                    raise PathAbort()
        else:
            if c.eqs is not None and len(c.eqs) == 1:
                self.add_row(c.eqs[0] ^ 1)
        self.add_constraint(c, value)
        k, pol = c.key()
        self.known[k] = value == pol

    def decide(self, c):
        """truth value of a symbolic condition on this path; forks if open"""
        c = c.simplified()
        if not isinstance(c, SymBool):
            return c
        key, pol = c.key()
        k = self.known.get(key)
        if k is not None:
            return k == pol
        if self.nofork:
            raise SpecFail()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'b':
                raise Inconclusive('replay divergence (expected branch)')
            self.pos += 1
            self.record(('b', val))
            self.assume(c, val)
            return val
        sup = c.sup()
        z = c.z3()
        t = self.sat(z, sup, c, True)
        if t == 'unsat':
            self.record(('b', False))
            self.assume(c, False)
            return False
        f = self.sat(z3.Not(z), sup, c, False)
        if f == 'unsat':
            self.record(('b', True))
            self.assume(c, True)
            return True
        # both sides possible (unknown counts as possible)
        self.forks += 1
        self.alternatives.append(tuple(self.trace) + (('b', False),))
        self.record(('b', True))
        self.pos = len(self.trace)
        self.assume(c, True)
        return True

    def choice(self, n):
        """n-way nondeterministic choice"""
        if n == 1:
            return 0
        if self.nofork:
            raise SpecFail()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'n':
                raise Inconclusive('replay divergence (expected choice)')
            self.pos += 1
            self.record(('n', val))
            return val
        base = tuple(self.trace)
        for i in range(n - 1, 0, -1):
            self.alternatives.append(base + (('n', i),))
        self.record(('n', 0))
        return 0

    def concretize(self, x, limit=600):
        """fork over every feasible value of a symbolic integer"""
        if not isinstance(x, PInt) or x._v is not None:
            return int(x)
        x = x.reduced()
        if not isinstance(x, PInt):
            return x
        if self.nofork:
            raise SpecFail()
        if self.pos < len(self.prefix):
            kind, val = self.prefix[self.pos]
            if kind != 'v':
                raise Inconclusive('replay divergence (expected value)')
            self.pos += 1
            self.record(('v', val))
            self.assume(sym_eq(x, val))
            return val
        bits = x._b
        t = self.bv(bits)
        sup = self.sup_of_bits(bits)
        exprs = list(self.slice_for(sup).values())
        key = (keep(t), frozenset(keep(e) for e in exprs))
        vals = _VAL_CACHE.get(key)
        fresh = vals is None
        if fresh:
            vals = []
            s = new_solver(sup & ARITH_SUP)
            for e in exprs:
                s.add(e)
        else:
            STATS['cache_hits'] += 1
            vals = list(vals)
        t0 = time.time()
        while fresh:
            STATS['queries'] += 1
            r = s.check()
            if r == z3.unsat:
                break
            if r != z3.sat:
                raise Inconclusive('unknown while enumerating values')
            v = s.model().eval(t, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Unsupported('too many values to concretize (%d-bit symbolic integer)' % len(bits))
            s.add(t != v)
        if fresh:
            STATS['solver_time'] += time.time() - t0
            _VAL_CACHE[key] = tuple(vals)
        if not vals:
            raise PathAbort()
        w = len(bits)
        if x._s:
            vals = [v - (1 << w) if v >> (w - 1) else v for v in vals]
        vals.sort()
        base = tuple(self.trace)
        for v in reversed(vals[1:]):
            self.alternatives.append(base + (('v', v),))
        self.record(('v', vals[0]))
        self.assume(sym_eq(x, vals[0]))
        return vals[0]

    def is_valid(self, c):
        """solver verdict: does the path condition imply c?  -> 'yes'/'no'/'unknown'"""
        if not isinstance(c, SymBool):
            return 'yes' if c else 'no'
        c = c.simplified()
        if not isinstance(c, SymBool):
            STATS['linear'] += 1
            return 'yes' if c else 'no'
        key, pol = c.key()
        if self.known.get(key) is pol:
            return 'yes'
        z = c.z3()
        r = self.sat(z3.Not(z), c.sup(), c, False)
        return {'unsat': 'yes', 'sat': 'no'}.get(r, 'unknown')

    def model(self, extra=(), seed=0, block=(), timeout=None, diverse=()):
        """model of the whole path condition (+extra SymBools); dict evaluator"""
        exprs = []
        exprs.extend(self.all_exprs())
        arith = any(s & ARITH_SUP for s, _ in self.comps)
        sup = 0
        conds = []
        for c in extra:
            if isinstance(c, SymBool):
                conds.append((c, True))
                sup |= c.sup()
                c = c.z3()
            exprs.append(c)
        hint = []
        rng = random.Random(seed)
        if not arith:
            done = sup
            if conds and self.heavy(sup, conds[0][0]):
                hint += self.witness_values(conds, sup, rng) or []
            for cs, es in self.comps:
                if not cs & done and self.heavy(cs):
                    hint += self.witness_values([], cs, rng) or []
        if hint:
            s = new_solver()
            s.set('timeout', timeout or SOLVER_TIMEOUT_MS)
            for e in exprs + hint:
                s.add(e)
            if s.check() == z3.sat:
                STATS['queries'] += 1
                return s.model()
        s = new_solver(True if arith else False)
        s.set('timeout', timeout or SOLVER_TIMEOUT_MS)
        if seed:
            try:
                s.set('random_seed', seed)
                s.set('phase_selection', 5)
            except z3.Z3Exception:
                pass
        for e in exprs:
            s.add(e)
        for e in block:
            s.add(e)
        STATS['queries'] += 1
        t0 = time.time()
        r = s.check()
        STATS['solver_time'] += time.time() - t0
        if r != z3.sat:
            return None
        m = s.model()
        if diverse:
            m = diversify(s, m, diverse, rng)
        return m


def diversify(s, m, terms, rng):
    """model of s in which as many of the terms as can be have random values: values that solvers like (zeros, equal values)
    make things coincide that have nothing to do with each other"""
    end = time.time() + 8
    s.set('timeout', 1500)
    todo = [[v == z3.BitVecVal(rng.randrange(1, 1 << v.size()) if v.size() > 1 else rng.randrange(2), v.size()) for v in terms]]
    while todo and time.time() < end:
        part = todo.pop()
        s.push()
        for e in part:
            s.add(e)
        STATS['queries'] += 1
        r = s.check()
        if r == z3.sat:
            m = s.model()
            # the pinned values stay: the scope is left open
            continue
        s.pop()
        if len(part) > 1:
            k = len(part) // 2
            todo.append(part[k:])
            todo.append(part[:k])
    return m


def new_solver(arith=False):
    if arith:
        s = z3.Solver()
    else:
        s = z3.SolverFor('QF_BV')
    s.set('timeout', SOLVER_TIMEOUT_MS)
    return s


def solve(exprs):
    for e in exprs:
        if z3.is_false(e):
            return 'unsat'
    ids = frozenset(keep(e) for e in exprs)
    r = _SAT_CACHE.get(ids)
    if r is not None:
        STATS['cache_hits'] += 1
        return r
    t0 = time.time()
    arith = CX is not None and CX.store.get('arith')
    s = new_solver(arith)
    for e in exprs:
        s.add(e)
    STATS['queries'] += 1
    q = s.check()
    r = 'sat' if q == z3.sat else 'unsat' if q == z3.unsat else 'unknown'
    if r == 'unknown':
        STATS['unknown'] += 1
    dt = time.time() - t0
    STATS['solver_time'] += dt
    hook = SOLVE_HOOK
    if hook is not None:
        hook(exprs, r, dt)
    if r != 'unknown':
        _SAT_CACHE[ids] = r
    return r


SOLVE_HOOK = None
CX = None


def set_ctx(c):
    global CX
    CX = c


# ---------------------------------------------------------------------------
class SymBool:
    """symbolic truth value.  Either a conjunction of linear equations
    (eqs: every mask is 0), possibly negated, or a z3 expression."""
    __slots__ = ('eqs', 'neg', '_z', '_sup', 'zbits')

    def __init__(self, eqs=None, neg=False, z=None, sup=None, zbits=None):
        self.eqs = eqs
        self.neg = neg
        self._z = z
        self._sup = sup
        self.zbits = zbits   # optional: positional xor vector for nicer z3

    def sup(self):
        if self._sup is None:
            self._sup = CX.sup_of_bits(self.eqs)
        return self._sup

    def key(self):
        """(hashable identity, polarity)"""
        if self.eqs is not None:
            if len(self.eqs) == 1:
                m = self.eqs[0]
                return m & ~1, bool(m & 1) == (not self.neg)
            return self.eqs, not self.neg
        return ('z', keep(self._z)), True

    def z3(self):
        if self._z is None:
            bits = self.zbits if self.zbits is not None else self.eqs
            z = None
            if len(bits) == 1:
                m = bits[0]
                a = m & ~1
                if a and a & (a - 1) == 0 and CX.atom_k[a.bit_length() - 1] < 0:
                    # a Bool atom; equation is mask == 0
                    z = CX.atom_term[a.bit_length() - 1]
                    z = z if m & 1 else z3.Not(z)
            if z is None:
                # pull constant inversions to the right-hand side
                cv = 0
                lhs = []
                for i, m in enumerate(bits):
                    cv |= (m & 1) << i
                    lhs.append(m & ~1)
                z = CX.bv(tuple(lhs)) == z3.BitVecVal(cv, len(bits))
            if self.neg:
                z = z3.Not(z)
            self._z = z
        return self._z

    def simplified(self):
        if self.eqs is None:
            if z3.is_true(self._z):
                return True
            if z3.is_false(self._z):
                return False
            return self
        if not CX.pivmask:
            return self
        red = CX.reduce
        out = []
        changed = False
        for m in self.eqs:
            r = red(m)
            if r != m:
                changed = True
            if r == 1:
                return self.neg
            if r:
                out.append(r)
        if not out:
            return not self.neg
        if not changed:
            return self
        return SymBool(eqs=tuple(out), neg=self.neg)

    def bit(self):
        """as a bit mask"""
        if self.eqs is not None and len(self.eqs) == 1:
            m = self.eqs[0]
            return m if self.neg else m ^ 1
        return CX.term_bits(self.z3(), self.sup())[0]

    def pint(self):
        return mk((self.bit(),), False)

    def __bool__(self):
        return CX.decide(self)

    def __invert__(self):
        # note: python's ~True is -2; code under test does not use it on bools
        return sym_not(self)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_and(self, o)
        return self.pint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_or(self, o)
        return self.pint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_not(sym_iff(self, o))
        return self.pint() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool)):
            return sym_iff(self, o)
        if isinstance(o, (int, PInt)):
            return sym_eq(self.pint(), o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return sym_not(r)

    def __hash__(self):
        return hash(bool(self))

    def __add__(self, o): return self.pint() + o
    __radd__ = __add__
    def __sub__(self, o): return self.pint() - o
    def __rsub__(self, o): return o - self.pint()
    def __mul__(self, o): return self.pint() * o
    __rmul__ = __mul__
    def __lshift__(self, o): return self.pint() << o
    def __rshift__(self, o): return self.pint() >> o
    def __lt__(self, o): return self.pint() < o
    def __le__(self, o): return self.pint() <= o
    def __gt__(self, o): return self.pint() > o
    def __ge__(self, o): return self.pint() >= o
    def __neg__(self): return -self.pint()
    def __index__(self): return int(bool(self))
    __int__ = __index__
    def __repr__(self): return '<symbool>'
    __str__ = __repr__
    def __format__(self, spec): return '<symbool>'


def bool_from_z3(z, sup):
    z = z3.simplify(z) if False else z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z=z, sup=sup)


def sym_not(a):
    if not isinstance(a, SymBool):
        return not a
    if a.eqs is not None:
        if len(a.eqs) == 1:
            return SymBool(eqs=(a.eqs[0] ^ 1,), neg=a.neg)
        r = SymBool(eqs=a.eqs, neg=not a.neg, zbits=a.zbits, sup=a._sup)
        return r
    if z3.is_not(a._z):
        return SymBool(z=a._z.arg(0), sup=a._sup)
    return SymBool(z=z3.Not(a._z), sup=a._sup)


def sym_and(a, b):
    if not isinstance(a, SymBool):
        return b if a else False
    if not isinstance(b, SymBool):
        return a if b else False
    if a.eqs is not None and b.eqs is not None and not a.neg and not b.neg \
            and len(a.eqs) + len(b.eqs) < 4096:
        za = a.zbits if a.zbits is not None else a.eqs
        zb = b.zbits if b.zbits is not None else b.eqs
        return SymBool(eqs=a.eqs + b.eqs, zbits=za + zb)
    return SymBool(z=z3.And(a.z3(), b.z3()), sup=a.sup() | b.sup())


def sym_or(a, b):
    if not isinstance(a, SymBool):
        return True if a else b
    if not isinstance(b, SymBool):
        return True if b else a
    return SymBool(z=z3.Or(a.z3(), b.z3()), sup=a.sup() | b.sup())


def sym_conj(items):
    """conjunction of many"""
    eqs = []
    zb = []
    zs = []
    sup = 0
    for c in items:
        if not isinstance(c, SymBool):
            if not c:
                return False
            continue
        if c.eqs is not None and not c.neg:
            eqs.extend(c.eqs)
            zb.extend(c.zbits if c.zbits is not None else c.eqs)
        else:
            zs.append(c.z3())
            sup |= c.sup()
    r = True
    if eqs:
        r = SymBool(eqs=tuple(eqs), zbits=tuple(zb))
    if not zs:
        return r
    z = SymBool(z=zs[0] if len(zs) == 1 else z3.And(*zs), sup=sup)
    return sym_and(r, z)


def sym_disj(items):
    zs = []
    sup = 0
    last = None
    for c in items:
        if not isinstance(c, SymBool):
            if c:
                return True
            continue
        last = c
        zs.append(c.z3())
        sup |= c.sup()
    if not zs:
        return False
    if len(zs) == 1:
        return last
    return SymBool(z=z3.Or(*zs), sup=sup)


def sym_iff(a, b):
    if not isinstance(a, SymBool):
        return b if a else sym_not(b)
    if not isinstance(b, SymBool):
        return a if b else sym_not(a)
    return SymBool(eqs=(a.bit() ^ b.bit(),)) if a.bit() != b.bit() and (a.bit() ^ b.bit()) != 1 \
        else (a.bit() == b.bit())


def sym_implies(a, b):
    return sym_or(sym_not(a), b)


def from_bit(m):
    if m == 0:
        return False
    if m == 1:
        return True
    return SymBool(eqs=(m ^ 1,))


# ---------------------------------------------------------------------------
def int_bits(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def bits_of(x, minw=0):
    """(bits, signed) of int / PInt / SymBool"""
    t = type(x)
    if t is int or t is bool:
        if x >= 0:
            return int_bits(x, max(x.bit_length(), minw)), False
        w = max(x.bit_length() + 1, minw)
        return int_bits(x & ((1 << w) - 1), w), True
    if isinstance(x, PInt):
        if x._v is not None:
            return bits_of(x._v, minw)
        return x._b, x._s
    if isinstance(x, SymBool):
        return (x.bit(),), False
    return bits_of(int(x), minw)


def ext(bits, signed, w):
    n = len(bits)
    if n >= w:
        return bits[:w]
    return bits + ((bits[-1] if (signed and n) else 0),) * (w - n)


def mk(bits, signed):
    """normalise to int or anonymous PInt"""
    n = len(bits)
    if signed:
        if n and bits[-1] == 0:
            signed = False
        else:
            while n > 1 and bits[n - 1] == bits[n - 2]:
                n -= 1
    if not signed:
        while n and bits[n - 1] == 0:
            n -= 1
    if n != len(bits):
        bits = bits[:n]
    for m in bits:
        if m > 1:
            r = PInt.__base_new__()
            r._v = None
            r._b = bits
            r._s = signed
            return r
    v = 0
    for i, m in enumerate(bits):
        if m:
            v |= 1 << i
    if signed and n and bits[-1]:
        v -= 1 << n
    return v


def is_sym(x):
    return isinstance(x, SymBool) or (isinstance(x, PInt) and x._v is None)


def conc(x):
    """plain int for concrete PInt"""
    if isinstance(x, PInt) and x._v is not None:
        return x._v
    return x


def numeric(x):
    return isinstance(x, (int, PInt, SymBool))


PROV_PRED = PROV_EQ = None


def sym_eq(a, b):
    if CX is not None and 'prov' in CX.store:
        if type(b) is int and type(a) is PInt:
            r = PROV_PRED(a, lambda v: v == b)
            if r is not None:
                return r
        elif type(a) is int and type(b) is PInt:
            r = PROV_PRED(b, lambda v: v == a)
            if r is not None:
                return r
        elif type(a) is PInt and type(b) is PInt:
            r = PROV_EQ(a, b)
            if r is not None:
                return r
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    if sa == sb:
        w = max(len(ba), len(bb))
    else:
        w = max(len(ba) + (not sa), len(bb) + (not sb))
    ea = ext(ba, sa, w)
    eb = ext(bb, sb, w)
    diff = tuple(x ^ y for x, y in zip(ea, eb))
    out = []
    for d in diff:
        if d:
            if d == 1:
                return False
            out.append(d)
    if not out:
        return True
    return SymBool(eqs=tuple(out), zbits=tuple(out))


def sym_ite(c, a, b):
    """integer if-then-else, c SymBool, a/b numeric"""
    if not isinstance(c, SymBool):
        return a if c else b
    if (isinstance(a, (SymBool, bool))) and (isinstance(b, (SymBool, bool))):
        return sym_or(sym_and(c, a), sym_and(sym_not(c), b))
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    signed = sa or sb
    w = max(len(ba) + (signed and not sa), len(bb) + (signed and not sb))
    ea, eb = ext(ba, sa, w), ext(bb, sb, w)
    cb = None
    out = [None] * w
    hard = []
    for i in range(w):
        x, y = ea[i], eb[i]
        if x == y:
            out[i] = x
            continue
        d = x ^ y
        if d == 1:
            if cb is None:
                cb = c.bit()
            out[i] = cb ^ y
            continue
        hard.append(i)
    if hard:
        z = c.z3()
        xs = tuple(ea[i] for i in hard)
        ys = tuple(eb[i] for i in hard)
        t = z3.If(z, CX.bv(xs), CX.bv(ys))
        sup = c.sup() | CX.sup_of_bits(xs) | CX.sup_of_bits(ys)
        tb = CX.term_bits(t, sup)
        for j, i in enumerate(hard):
            out[i] = tb[j]
    return mk(tuple(out), signed)


def _bitop_and(x, y):
    if x == 0 or y == 0:
        return 0
    if x == 1:
        return y
    if y == 1:
        return x
    if x == y:
        return x
    if x ^ y == 1:
        return 0
    return None


def _arith(op, a, b):
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    na, nb = len(ba), len(bb)
    if op == 'add':
        if not sa and not sb:
            # disjoint -> or
            if all(x == 0 or y == 0 for x, y in zip(ba, bb)):
                w = max(na, nb)
                ea, eb = ext(ba, False, w), ext(bb, False, w)
                return mk(tuple(x | y if (x == 0 or y == 0) else None for x, y in zip(ea, eb)), False)
            # common low zero bits need no adder
            w = max(na, nb) + 1
            signed = False
        else:
            w = max(na + (not sa), nb + (not sb)) + 1
            signed = True
        ea, eb = ext(ba, sa, w), ext(bb, sb, w)
        low = 0
        while low < w and (ea[low] == 0 or eb[low] == 0):
            low += 1
        lowbits = tuple(ea[i] | eb[i] for i in range(low))
        if low == w:
            return mk(lowbits, signed)
        ea, eb = ea[low:], eb[low:]
        t = CX.bv(ea) + CX.bv(eb)
        tb = CX.term_bits(t, CX.sup_of_bits(ea) | CX.sup_of_bits(eb))
        return mk(lowbits + tb, signed)
    if op == 'sub':
        w = max(na + (not sa), nb + (not sb)) + 1
        ea, eb = ext(ba, sa, w), ext(bb, sb, w)
        # x - y with y's bits a subset of x's bits: borrow free
        if not sa and not sb and all(y == 0 or x == y or x == 1 for x, y in zip(ea, eb)):
            return mk(tuple(x ^ y for x, y in zip(ea, eb)), False)
        t = CX.bv(ea) - CX.bv(eb)
        tb = CX.term_bits(t, CX.sup_of_bits(ea) | CX.sup_of_bits(eb))
        return mk(tb, True)
    if op == 'mul':
        signed = sa or sb
        w = na + nb + (1 if signed else 0)
        ea, eb = ext(ba, sa, w), ext(bb, sb, w)
        t = CX.bv(ea) * CX.bv(eb)
        tb = CX.term_bits(t, CX.sup_of_bits(ea) | CX.sup_of_bits(eb))
        return mk(tb, signed)
    raise AssertionError(op)


def sym_less(a, b, orequal):
    """a < b (or <=)"""
    if CX is not None and 'prov' in CX.store:
        if type(b) is int and type(a) is PInt:
            r = PROV_PRED(a, (lambda v: v <= b) if orequal else (lambda v: v < b))
            if r is not None:
                return r
        elif type(a) is int and type(b) is PInt:
            r = PROV_PRED(b, (lambda v: a <= v) if orequal else (lambda v: a < v))
            if r is not None:
                return r
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    signed = sa or sb
    # quick range decisions
    lo_a, hi_a = rng(ba, sa)
    lo_b, hi_b = rng(bb, sb)
    if orequal:
        if hi_a <= lo_b:
            return True
        if lo_a > hi_b:
            return False
    else:
        if hi_a < lo_b:
            return True
        if lo_a >= hi_b:
            return False
    if signed:
        w = max(len(ba) + (not sa), len(bb) + (not sb))
    else:
        w = max(len(ba), len(bb))
    ea, eb = ext(ba, sa, w), ext(bb, sb, w)
    # x < 2^k with constant: zero test of the high bits
    if not signed and all(m <= 1 for m in eb):
        c = sum(m << i for i, m in enumerate(eb))
        lim = c + 1 if orequal else c
        if lim & (lim - 1) == 0 and lim:
            k = lim.bit_length() - 1
            return sym_eq(mk(ea[k:], False), 0)
    if not signed and all(m <= 1 for m in ea):
        c = sum(m << i for i, m in enumerate(ea))
        lim = c if orequal else c + 1     # lim <= b
        if lim & (lim - 1) == 0 and lim:
            k = lim.bit_length() - 1
            return sym_not(sym_eq(mk(eb[k:], False), 0))
    # common prefix
    while w > 1 and ea[w - 1] == eb[w - 1] and (not signed):
        w -= 1
        ea, eb = ea[:w], eb[:w]
    x, y = CX.bv(ea), CX.bv(eb)
    sup = CX.sup_of_bits(ea) | CX.sup_of_bits(eb)
    if signed:
        if w == 1 or (all(m <= 1 for m in eb) and not any(eb) and not orequal):
            if not any(eb) and not orequal:
                return from_bit(ea[-1])       # x < 0: sign bit
        z = (x <= y) if orequal else (x < y)
    else:
        z = z3.ULE(x, y) if orequal else z3.ULT(x, y)
    return bool_from_z3(z, sup)


def rng(bits, signed):
    hi = 0
    lo = 0
    n = len(bits)
    for i, m in enumerate(bits):
        if signed and i == n - 1:
            if m != 0:
                lo -= 1 << i
            if m == 1:
                hi -= 1 << i
            continue
        if m != 0:
            hi |= 1 << i
        if m == 1:
            lo |= 1 << i
    return lo, hi


class PIntMeta(type):
    def __call__(cls, *args, **kw):
        if cls is PInt:
            return to_int(*args, **kw)
        return type.__call__(cls, *args, **kw)


def to_int(x=0, *a, **kw):
    if a or kw:
        from . import pbytes
        if isinstance(x, pbytes.PStr):
            return pbytes.str_to_int(x, *a, **kw)
        if isinstance(x, pbytes.PBytes):
            x = x.tobytes()
        return int(x, *a, **kw)
    if isinstance(x, PInt):
        if x._v is not None:
            return x._v
        if type(x) is PInt:
            return x
        return mk(x._b, x._s)
    if isinstance(x, SymBool):
        return x.pint()
    if type(x) in (int, bool, float, str):
        return int(x)
    from . import pbytes
    if isinstance(x, pbytes.PStr):
        return pbytes.str_to_int(x, 10)
    if isinstance(x, pbytes.PBytes):
        return int(x.tobytes())
    m = getattr(type(x), '__int__', None) or getattr(type(x), '__index__', None)
    if m is not None:
        return m(x)
    return int(x)


class PInt(metaclass=PIntMeta):
    """`int` as seen by the instrumented code.  Subclass instances may be
    concrete (_v) or symbolic; anonymous instances are always symbolic."""
    __slots__ = ('_v', '_b', '_s')

    @staticmethod
    def __base_new__():
        return object.__new__(PInt)

    def __new__(cls, x=0, *a, **kw):
        x = to_int(x, *a, **kw)
        r = object.__new__(cls)
        if isinstance(x, PInt):
            r._v = None
            r._b = x._b
            r._s = x._s
        else:
            r._v = x
            r._b = None
            r._s = False
        return r

    def reduced(self):
        if self._v is not None:
            return self._v
        if CX.pivmask:
            red = CX.reduce
            nb = tuple(red(m) if m > 1 else m for m in self._b)
            if nb != self._b:
                return mk(nb, self._s)
        return self

    # -- conversions
    def __bool__(self):
        if self._v is not None:
            return bool(self._v)
        return bool(sym_not(sym_eq(self, 0)))

    def __index__(self):
        if self._v is not None:
            return self._v
        return CX.concretize(self)

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        if self._v is not None:
            return hash(self._v)
        return hash(CX.concretize(self))

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        if self._v is not None:
            return repr(self._v)
        return '<sym>'

    def __str__(self):
        if self._v is not None:
            return str(self._v)
        return '<sym>'

    def __format__(self, spec):
        if self._v is not None:
            return format(self._v, spec)
        return '<sym>'

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self

    # -- comparison
    def __eq__(self, o):
        if not numeric(o):
            return NotImplemented
        if self._v is not None and not is_sym(o):
            return self._v == int(o)
        return sym_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else sym_not(r)

    def _cmp(self, o, swap, oreq):
        if not numeric(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        a, b = conc(a), conc(b)
        if not is_sym(a) and not is_sym(b):
            return a <= b if oreq else a < b
        return sym_less(a, b, oreq)

    def __lt__(self, o): return self._cmp(o, False, False)
    def __le__(self, o): return self._cmp(o, False, True)
    def __gt__(self, o): return self._cmp(o, True, False)
    def __ge__(self, o): return self._cmp(o, True, True)

    # -- arithmetic
    def _bin(self, o, op, swap):
        if not numeric(o):
            return NotImplemented
        a, b = (o, self) if swap else (self, o)
        a, b = conc(a), conc(b)
        if not is_sym(a) and not is_sym(b):
            a, b = int(a), int(b)
            return {'add': a.__add__, 'sub': a.__sub__, 'mul': a.__mul__,
                    'and': a.__and__, 'or': a.__or__, 'xor': a.__xor__}[op](b)
        if op in ('and', 'or', 'xor'):
            return _bitwise(op, a, b)
        if op == 'mul':
            for u, w in ((a, b), (b, a)):
                if not is_sym(u):
                    u = int(u)
                    if u == 0:
                        return 0
                    if u > 0 and u & (u - 1) == 0:
                        return shl(w, u.bit_length() - 1)
        return _arith(op, a, b)

    def __add__(self, o): return self._bin(o, 'add', False)
    def __radd__(self, o): return self._bin(o, 'add', True)
    def __sub__(self, o): return self._bin(o, 'sub', False)
    def __rsub__(self, o): return self._bin(o, 'sub', True)
    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, 'mul', False)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, 'mul', True)

    def __and__(self, o): return self._bin(o, 'and', False)
    def __rand__(self, o): return self._bin(o, 'and', True)
    def __or__(self, o): return self._bin(o, 'or', False)
    def __ror__(self, o): return self._bin(o, 'or', True)
    def __xor__(self, o): return self._bin(o, 'xor', False)
    def __rxor__(self, o): return self._bin(o, 'xor', True)

    def __invert__(self):
        if self._v is not None:
            return ~self._v
        return mk(tuple(m ^ 1 for m in ext(self._b, self._s, len(self._b) + 1)), True)

    def __neg__(self):
        if self._v is not None:
            return -self._v
        return _arith('sub', 0, self)

    def __pos__(self):
        return to_int(self)

    def __abs__(self):
        if self._v is not None:
            return abs(self._v)
        if not self._s:
            return mk(self._b, False)
        return sym_ite(sym_less(self, 0, False), -self, self)

    def __lshift__(self, o):
        return shl(to_int(self), o)

    def __rlshift__(self, o):
        return shl(o, to_int(self))

    def __rshift__(self, o):
        return shr(to_int(self), o)

    def __rrshift__(self, o):
        return shr(o, to_int(self))

    def __floordiv__(self, o):
        return divmod_(self, o)[0] if numeric(o) else NotImplemented

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0] if numeric(o) else NotImplemented

    def __mod__(self, o):
        return divmod_(self, o)[1] if numeric(o) else NotImplemented

    def __rmod__(self, o):
        return divmod_(o, self)[1] if numeric(o) else NotImplemented

    def __divmod__(self, o):
        return divmod_(self, o) if numeric(o) else NotImplemented

    def __rdivmod__(self, o):
        return divmod_(o, self) if numeric(o) else NotImplemented

    def __pow__(self, o, m=None):
        b = conc(o)
        if self._v is not None and not is_sym(b):
            return pow(self._v, int(b), m)
        raise Unsupported('pow')

    def __rpow__(self, o):
        if isinstance(o, int) and o == 2:
            return shl(1, self)
        return pow(o, self.__index__())

    def __truediv__(self, o):
        if self._v is not None:
            return self._v / o
        raise Unsupported('true division')

    def __round__(self, nd=None):
        return to_int(self)

    def bit_length(self):
        if self._v is not None:
            return self._v.bit_length()
        a = abs(self)
        b, _ = bits_of(a)
        r = 0
        for i in range(len(b)):
            c = from_bit(b[i])
            r = sym_ite(c, i + 1, r) if isinstance(c, SymBool) else (i + 1 if c else r)
        return r

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        from . import pbytes
        return pbytes.int_to_bytes(self, length, byteorder, signed)

    @classmethod
    def from_bytes(cls, b, byteorder='big', *, signed=False):
        from . import pbytes
        r = pbytes.int_from_bytes(b, byteorder, signed)
        return r if cls is PInt else cls(r)

    @property
    def real(self): return to_int(self)
    @property
    def imag(self): return 0
    @property
    def numerator(self): return to_int(self)
    @property
    def denominator(self): return 1
    def conjugate(self): return to_int(self)
    def __trunc__(self): return to_int(self)
    def __ceil__(self): return to_int(self)
    def __floor__(self): return to_int(self)


def _bitwise(op, a, b):
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    w = max(len(ba), len(bb))
    if op == 'and' and not sa and not sb:
        w = min(len(ba), len(bb))
    ea, eb = ext(ba, sa, w), ext(bb, sb, w)
    if sa or sb:
        # one guard bit makes the sign exact
        w += 1
        ea, eb = ext(ba, sa, w), ext(bb, sb, w)
    signed = sa or sb
    if op == 'xor':
        return mk(tuple(x ^ y for x, y in zip(ea, eb)), signed)
    out = []
    hard = []
    for i in range(w):
        x, y = ea[i], eb[i]
        if op == 'and':
            r = _bitop_and(x, y)
        else:
            r = _bitop_and(x ^ 1, y ^ 1)
            if r is not None:
                r ^= 1
        out.append(r)
        if r is None:
            hard.append(i)
    if hard:
        xs = tuple(ea[i] for i in hard)
        ys = tuple(eb[i] for i in hard)
        x, y = CX.bv(xs), CX.bv(ys)
        t = (x & y) if op == 'and' else (x | y)
        tb = CX.term_bits(t, CX.sup_of_bits(xs) | CX.sup_of_bits(ys))
        for j, i in enumerate(hard):
            out[i] = tb[j]
    return mk(tuple(out), signed)


def shl(a, n):
    n = conc(n)
    if is_sym(n):
        n = CX.concretize(n)
    if n < 0:
        raise ValueError('negative shift count')
    a = conc(a)
    if not is_sym(a):
        return int(a) << n
    b, s = bits_of(a)
    return mk((0,) * n + b, s)


def shr(a, n):
    n = conc(n)
    if is_sym(n):
        n = CX.concretize(n)
    if n < 0:
        raise ValueError('negative shift count')
    a = conc(a)
    if not is_sym(a):
        return int(a) >> n
    b, s = bits_of(a)
    if n >= len(b):
        return mk((b[-1],), True) if s else 0
    return mk(b[n:], s)


def divmod_(a, b):
    a, b = conc(a), conc(b)
    if not is_sym(a) and not is_sym(b):
        return divmod(int(a), int(b))
    if not is_sym(b):
        b = int(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if b > 0 and b & (b - 1) == 0:
            k = b.bit_length() - 1
            return shr(a, k), _bitwise('and', a, b - 1)
    elif bool(sym_eq(b, 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
    ba, sa = bits_of(a)
    bb, sb = bits_of(b)
    if sb:
        raise Unsupported('division by possibly negative symbolic value')
    if sa:
        if bool(sym_less(a, 0, False)):
            # floor division of a negative number: -(ceil(-a / b))
            q, r = divmod_(-a, b)
            if bool(sym_eq(r, 0)):
                return -q, 0
            return -q - 1, b - r
        a = mk(ba[:-1], False)
        ba, sa = bits_of(a)
        if not is_sym(a) and not is_sym(b):
            return divmod(a, b)
    w = max(len(ba), len(bb))
    ea, eb = ext(ba, False, w), ext(bb, False, w)
    x, y = CX.bv(ea), CX.bv(eb)
    sup = CX.sup_of_bits(ea) | CX.sup_of_bits(eb)
    q = CX.term_bits(z3.UDiv(x, y), sup)
    r = CX.term_bits(z3.URem(x, y), sup)
    return mk(q, False), mk(r, False)
