"""Symbolic real-valued terms: hash-consed DAG, numeric signatures, and the
canonicalising prover.

A term is created through `Ctx.mk`.  Two terms which take the same values at
all sample points are *candidates* for being equal; the candidate equality is
then decided by `Prover.equal`, and the two are merged only when the SMT
solver answered `unsat` for "they differ".  All merges are facts that hold for
every value of the symbols (only facts about the symbols themselves, such as
"this triple is a unit vector", are used), never path conditions.
"""
from fractions import Fraction
import math
import os
import time
import numpy as np
import z3

PROF = os.environ.get('VERIF_PROF')
K = 12                       # sample points per term
np.seterr(all='ignore')


class TooBig(Exception):
    pass


# --------------------------------------------------------------- polynomials
# monomial: packed int, 12 bits of exponent per atom; poly: dict mono -> coef
B = 12
BM = (1 << B) - 1
LIMIT = [40000]


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def pscale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def psub(a, b):
    return padd(a, pscale(b, -1))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 60 * LIMIT[0]:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: c for m, c in r.items() if c != 0}
    if len(r) > LIMIT[0]:
        raise TooBig()
    return r


def pconst(c):
    return {0: c} if c != 0 else {}


ONE = {0: 1}


def ppow(a, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(p):
    return frozenset(p.items())


def num(c):
    """Fraction -> int when integral (faster)"""
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Atom:
    __slots__ = ('idx', 'name', 'rel', 'pos', 'z', 'node', 'shift', 'defn')

    def __init__(s, idx, name, node=None, pos=False):
        s.idx, s.name, s.rel, s.pos, s.z, s.node, s.defn = idx, name, None, pos, None, node, None
        s.shift = idx * B

    def poly(s):
        return {1 << s.shift: 1}


class Term:
    __slots__ = ('id', 'op', 'args', 'val', 'sig', 'ctx', 'rat', 'flags', 'size')

    def __repr__(s):
        return s.ctx.show(s)

    # operator overloading, so that compiled code can use + - *
    def __add__(s, o):
        if o != o:
            return o
        return s.ctx.add(s, o)

    def __radd__(s, o):
        if o != o:
            return o
        return s.ctx.add(o, s)

    def __sub__(s, o):
        if o != o:
            return o
        return s.ctx.sub(s, o)

    def __rsub__(s, o):
        if o != o:
            return o
        return s.ctx.sub(o, s)

    def __mul__(s, o):
        if o != o:
            return o
        return s.ctx.mul(s, o)

    def __rmul__(s, o):
        if o != o:
            return o
        return s.ctx.mul(o, s)

    def __truediv__(s, o):
        if o != o:
            return o
        return s.ctx.div(s, o)

    def __rtruediv__(s, o):
        if o != o:
            return o
        return s.ctx.div(o, s)

    def __eq__(s, o):
        return s is o

    def __ne__(s, o):
        return s is not o

    __hash__ = object.__hash__

    def __neg__(s):
        return s.ctx.neg(s)

    def __bool__(s):
        raise TypeError('symbolic value used as a condition')


PI = math.pi
_snap = {}


def snap(x):
    """The intended real value of a double constant: ('q', r) or ('pi', r, k)"""
    r = _snap.get(x)
    if r is None:
        r = _snap[x] = _snap_(x)
    return r


def _snap_(x):
    if x == 0:
        return (Fraction(0), 0)
    if not math.isfinite(x):
        raise OverflowError('non-finite constant in symbolic arithmetic')
    # short decimals and small fractions are what a source literal means
    for k in (0, 1, 2, -1, -2):
        y = x / PI ** k
        f = Fraction(y).limit_denominator(10000 if k == 0 else 720)
        if f != 0 and abs(float(f) - y) <= 4e-16 * abs(y) and abs(f.numerator) < 10 ** 7:
            return (f, k)
    d = Fraction(repr(x))
    if d.denominator <= 10 ** 12:
        return (d, 0)
    return (Fraction(x), 0)


class Ctx:
    def __init__(self, seed=1):
        self.rng = np.random.default_rng(seed * 7919 + 17)
        self.table = {}
        self.nodes = []
        self.bucket = {}
        self.atoms = []
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0,
                          merges=0, merge_fail=0)
        self.denoms = {}          # node id -> node : divisors met
        self.samples = {}         # symbol name -> sample vector
        self.syms = {}
        self.kinds = {}           # symbol name -> (kind, lo, hi)
        self.unit3s = []
        self.prover = Prover(self)
        self.pi = self.new('pi', (), None, np.full(K, PI), pos=True)
        self.pi.rat = (self.atom('pi', self.pi, pos=True).poly(), ())      # atom 0
        self.log = []

    # ---- construction
    def new(self, op, args, val, sig, pos=False):
        t = Term()
        t.id = len(self.nodes)
        t.op, t.args, t.val, t.sig, t.ctx, t.rat = op, args, val, sig, self, None
        t.flags = {'pos'} if pos else None
        t.size = 1 + sum(a.size for a in args if isinstance(a, Term)) if args else 1
        self.nodes.append(t)
        return t

    def const(self, q):
        q = Fraction(q)
        key = ('c', q)
        t = self.table.get(key)
        if t is None:
            t = self.new('c', (), q, np.full(K, float(q)))
            if q > 0:
                t.flags = {'pos'}
            self.table[key] = t
        return t

    def lift(self, x):
        if type(x) is Term:
            return x
        if type(x) is float:
            q, k = snap(x)
            t = self.const(q)
            if k == 0:
                return t
            p = self.pi
            for _ in range(abs(k) - 1):
                p = self.raw('*', p, self.pi)
            return self.raw('*', t, p) if k > 0 else self.raw('/', t, p)
        return self.const(Fraction(x))

    def sym(self, name, kind='real', lo=None, hi=None, sig=None):
        t = self.syms.get(name)
        if t is not None:
            return t
        if sig is None:
            g = self.rng
            if kind == 'real':
                sig = g.normal(0.0, 1.0, K)
            elif kind == 'normal':
                sig = g.normal(0.0, 1.0, K)
            elif kind == 'unit':
                sig = g.uniform(0.02, 0.98, K)
            elif kind == 'pos':
                sig = g.uniform(0.15, 1.9, K)
            else:
                sig = g.uniform(lo, hi, K)
        t = self.new('sym', (), name, sig, pos=(kind in ('pos', 'unit')) or (lo is not None and lo >= 0))
        self.syms[name] = t
        self.kinds[name] = (kind, lo, hi)
        t.rat = (self.atom(name, t, pos=bool(t.flags)).poly(), ())
        return t

    def unit3(self, name):
        """three symbols with x^2+y^2+z^2=1"""
        if name + 'x' in self.syms:
            return [self.syms[name + c] for c in 'xyz']
        v = self.rng.normal(0, 1, (3, K))
        v /= np.sqrt((v * v).sum(0))
        x, y, z = [self.sym(name + c, sig=v[i]) for i, c in enumerate('xyz')]
        self.unit3s.append(name)
        for c in 'xyz':
            self.kinds[name + c] = ('unit3', None, None)
        a = self.atom_of(z)
        a.rel = psub(psub(ONE, pmul(x.rat[0], x.rat[0])), pmul(y.rat[0], y.rat[0]))
        return [x, y, z]

    def atom(self, name, node, pos=False):
        a = Atom(len(self.atoms), name, node, pos)
        self.atoms.append(a)
        return a

    def atom_of(self, t):
        """the atom a node is represented by (its rat must be a lone atom)"""
        (m,) = t.rat[0].keys()
        return self.atoms[(m.bit_length() - 1) // B]

    def raw(self, op, *args):
        """build a node: folding, hash-consing, then signature-directed merging"""
        if op in ('+', '*') and args[0].id > args[1].id:
            args = (args[1], args[0])
        key = (op,) + tuple(a.id for a in args)
        t = self.table.get(key)
        if t is not None:
            return t
        s = evaluate(op, [a.sig for a in args])
        t = self.new(op, args, None, s)
        r = self.merge(t, args)
        self.table[key] = r
        return r

    def merge(self, t, args):
        s = t.sig
        ok = np.isfinite(s)
        if not ok.any():
            return t
        v = s[ok]
        mag = max([float(np.abs(a.sig[ok]).max()) for a in args] + [1e-300])
        # a constant?
        if len(v) >= 4:
            c = float(v[0])
            if t.op in ('+', '-') and np.abs(v).max() <= 1e-11 * mag:
                z = self.const(0)
                if self.prover.equal(t, z):
                    return z
                return t
            if np.abs(v - c).max() <= 1e-9 * max(abs(c), 1e-3):
                f = Fraction(c).limit_denominator(64)
                if abs(float(f) - c) <= 1e-9 * max(1.0, abs(c)):
                    z = self.const(f)
                    if self.prover.equal(t, z):
                        return z
        # an existing term, up to sign?
        h = float(np.abs(v[0])) if ok[0] else None
        if h is None or h == 0:
            return t
        k = int(math.floor(math.log(h) * 1e7))
        for kk in (k, k - 1, k + 1):
            for o, rep in self.bucket.get(kk, ()):
                so = o.sig
                m = ok & np.isfinite(so)
                if m.sum() < 3:
                    continue
                a, b = s[m], so[m]
                tol = 1e-9 * np.maximum(np.abs(a), np.abs(b)) + 1e-12 * mag
                if (np.abs(a - b) <= tol).all():
                    if self.prover.equal(t, o):
                        self.stats['merges'] += 1
                        self.alias(k, t, rep)
                        return rep
                    self.stats['merge_fail'] += 1
                elif (np.abs(a + b) <= tol).all() and o.op != 'neg' and t.op != 'neg':
                    n = self.neg(o)
                    if self.prover.equal(t, n):
                        self.stats['merges'] += 1
                        self.alias(k, t, self.neg(rep))
                        return self.neg(rep)
                    self.stats['merge_fail'] += 1
        self.bucket.setdefault(k, []).append((t, t))
        return t

    def alias(self, k, t, rep):
        """t was proved equal to rep: later terms may match either form"""
        b = self.bucket.setdefault(k, [])
        if t.size > 40 and len(b) < 12:
            b.append((t, rep))

    # ---- arithmetic
    def isc(self, t, q):
        return t.op == 'c' and t.val == q

    def add(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if a.op == 'c':
            if b.op == 'c':
                return self.const(a.val + b.val)
            if a.val == 0:
                return b
        if b.op == 'c' and b.val == 0:
            return a
        if b.op == 'neg':
            return self.sub(a, b.args[0])
        if a.op == 'neg':
            return self.sub(b, a.args[0])
        return self.raw('+', a, b)

    def sub(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if a is b:
            return self.const(0)
        if b.op == 'c':
            if a.op == 'c':
                return self.const(a.val - b.val)
            if b.val == 0:
                return a
            return self.add(a, self.const(-b.val))
        if a.op == 'c' and a.val == 0:
            return self.neg(b)
        if b.op == 'neg':
            return self.add(a, b.args[0])
        if a.op == 'neg':
            return self.neg(self.add(a.args[0], b))
        return self.raw('-', a, b)

    def neg(self, a):
        a = self.lift(a)
        if a.op == 'c':
            return self.const(-a.val)
        if a.op == 'neg':
            return a.args[0]
        key = ('neg', a.id)
        t = self.table.get(key)
        if t is None:
            t = self.new('neg', (a,), None, -a.sig)
            self.table[key] = t
        return t

    def mul(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if a.op == 'c' and b.op == 'c':
            return self.const(a.val * b.val)
        for x, y in ((a, b), (b, a)):
            if x.op == 'c':
                if x.val == 0:
                    return self.const(0)
                if x.val == 1:
                    return y
                if x.val == -1:
                    return self.neg(y)
                if x.val < 0:
                    return self.neg(self.mul(self.const(-x.val), y))
        if a.op == 'neg':
            return self.neg(self.mul(a.args[0], b))
        if b.op == 'neg':
            return self.neg(self.mul(a, b.args[0]))
        if a.op == '/' and a.args[1] is b:
            return a.args[0]
        if b.op == '/' and b.args[1] is a:
            return b.args[0]
        return self.raw('*', a, b)

    def div(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if b.op == 'c':
            if b.val == 0:
                raise ZeroDivisionError
            return self.mul(a, self.const(1 / b.val))
        self.denoms[b.id] = b
        if a is b:
            return self.const(1)
        if a.op == 'c' and a.val == 0:
            return a
        if a.op == 'neg':
            return self.neg(self.div(a.args[0], b))
        if b.op == 'neg':
            return self.neg(self.div(a, b.args[0]))
        return self.raw('/', a, b)

    def fn(self, f, *args):
        """sqrt sin cos tan exp ln acos asin atan atan2 tanh abs ..."""
        a = [self.lift(x) for x in args]
        x = a[0]
        if all(y.op == 'c' for y in a):
            if f == 'abs':
                return self.const(abs(x.val))
            if f in ('floor', 'ceil', 'round', 'trunc'):
                q = x.val
                return self.const({'floor': math.floor(q), 'ceil': math.ceil(q), 'trunc': math.trunc(q),
                                   'round': math.floor(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1)}[f])
            if x.val == 0 and f in ('sin', 'tan', 'sqrt', 'asin', 'atan', 'tanh', 'sinh'):
                return self.const(0)
            if x.val == 0 and f in ('cos', 'exp', 'cosh'):
                return self.const(1)
            if f == 'sqrt' and x.val > 0:
                n, d = math.isqrt(x.val.numerator), math.isqrt(x.val.denominator)
                if n * n == x.val.numerator and d * d == x.val.denominator:
                    return self.const(Fraction(n, d))
            if f == 'ln' and x.val == 1:
                return self.const(0)
        if x.op == 'neg':
            y = x.args[0]
            if f in ('sin', 'tan', 'asin', 'atan', 'tanh', 'sinh'):
                return self.neg(self.fn(f, y))
            if f in ('cos', 'abs', 'cosh'):
                return self.fn(f, y)
            if f == 'exp':
                return self.div(self.const(1), self.fn('exp', y))
            if f == 'acos':
                return self.sub(self.pi, self.fn('acos', y))
        if f == 'abs' and x.flags and 'pos' in x.flags:
            return x
        if f == 'exp' and x.op == 'ln':
            return x.args[0]
        if f == 'exp' and x.op in ('+', '-'):
            # e^(x + ln y), e^(x + 1)
            y, z = x.args
            for u, v in ((y, z), (z, y)):
                if u.op == 'ln':
                    e, g = self.fn('exp', y), self.fn('exp', z)
                    return self.mul(e, g) if x.op == '+' else self.div(e, g)
        if f == 'exp' and x.op == '*' and x.args[0].op == 'c' and x.args[0].val.denominator == 1 and 1 < abs(x.args[0].val) <= 8:
            return self.powi(self.fn('exp', x.args[1]), int(x.args[0].val))
        if f == 'exp' and x.op == '*' and x.args[1].op == 'c' and x.args[1].val.denominator == 1 and 1 < abs(x.args[1].val) <= 8:
            return self.powi(self.fn('exp', x.args[0]), int(x.args[1].val))
        if f == 'ln' and x.op == 'exp':
            return x.args[0]
        if f == 'cos' and x.op == 'acos':
            return x.args[0]
        if f == 'sin' and x.op == 'asin':
            return x.args[0]
        if f == 'tan':
            return self.div(self.fn('sin', x), self.fn('cos', x))
        if f == 'asin':
            return self.sub(self.mul(self.const(Fraction(1, 2)), self.pi), self.fn('acos', x))
        if f in ('sin', 'cos'):
            l = self.prover.linear(x)
            if l is not None:
                r = self.prover.trig_sum(f, l)
                if r is not None:
                    return r
        if f == 'sqrt' and x.op == '*' and x.args[0] is x.args[1]:
            return self.fn('abs', x.args[0])
        if f == 'abs' and x.op == 'sqrt':
            return x
        t = self.raw(f, *a)
        if f in ('exp', 'sqrt', 'abs', 'cosh') and t.op == f:
            t.flags = {'pos'}
        return t

    def powi(self, a, n):
        if n < 0:
            return self.div(self.const(1), self.powi(a, -n))
        r = self.const(1)
        for _ in range(n):
            r = self.mul(r, a)
        return r

    # ---- cut points supplied by the reference specification
    def opaque(self, t, keep=False):
        """treat t as an unknown in later proofs (sound: it only forgets)"""
        if type(t) is not Term or t.op in ('c', 'sym', 'pi'):
            return
        if t.op == 'neg':
            t = t.args[0]
        if t.flags and 'cut' in t.flags:
            return
        pos = bool(t.flags and 'pos' in t.flags)
        # its definition stays known: later terms may be recognised by it
        twin = self.new(t.op, t.args, t.val, t.sig)
        twin.rat = t.rat
        if np.isfinite(t.sig[0]) and t.sig[0] != 0:
            k = int(math.floor(math.log(abs(float(t.sig[0]))) * 1e7))
            self.bucket.setdefault(k, []).append((twin, t))
        for x in self.nodes[t.id + 1:]:
            if x.rat is not None and x.args and not (x.flags and 'cut' in x.flags):
                x.rat = None
        old = t.rat
        if keep and old is None:
            old = self.prover.rat(t)
        a = self.atom('cut%d' % t.id, t, pos=pos)
        if keep and not old[1] and len(old[0]) <= 40:
            a.defn = old[0]          # may be expanded again, when nothing else helps
        t.rat = (a.poly(), ())
        t.flags = (t.flags or set()) | {'cut'}

    def cut_unit3(self, v):
        """prove x^2+y^2+z^2=1, then treat x,y,z as unknowns with that relation"""
        v = [self.lift(x) for x in v]
        n = self.add(self.add(self.mul(v[0], v[0]), self.mul(v[1], v[1])), self.mul(v[2], v[2]))
        good = self.isc(n, 1)
        if any(x.op in ('c', 'sym') for x in v):
            return good
        w = [x.args[0] if x.op == 'neg' else x for x in v]
        if all(x.flags and 'cut' in x.flags for x in w):
            return good
        if len({x.id for x in w}) < 3:
            return good
        for x in w:
            self.opaque(x)
        if good:
            a = self.atom_of(w[2])
            b = [self.atom_of(w[0]), self.atom_of(w[1])]
            if a.rel is None and all(a.idx > y.idx for y in b):
                a.rel = psub(psub(ONE, ppow(w[0].rat[0], 2)), ppow(w[1].rat[0], 2))
        return good

    def show(self, t, depth=4):
        if type(t) is not Term:
            return repr(t)
        if t.op == 'c':
            return str(t.val)
        if t.op == 'sym':
            return t.val
        if t.op == 'pi':
            return 'pi'
        if depth == 0:
            return '..%d' % t.id
        a = [self.show(x, depth - 1) for x in t.args]
        if t.op in '+-*/':
            return '(' + (' %s ' % t.op).join(a) + ')'
        return '%s(%s)' % (t.op, ', '.join(a))

    # ---- evaluation at other points (counterexample search)
    def eval_many(self, terms, env, n):
        """values of terms at n points; env: symbol name -> vector"""
        memo = {}
        order = []
        stack = [(t, False) for t in terms]
        while stack:
            t, done = stack.pop()
            if t.id in memo:
                continue
            if done:
                if t.op == 'c':
                    memo[t.id] = np.full(n, float(t.val))
                elif t.op == 'pi':
                    memo[t.id] = np.full(n, PI)
                elif t.op == 'sym':
                    memo[t.id] = env[t.val]
                else:
                    memo[t.id] = evaluate(t.op, [memo[a.id] for a in t.args])
            else:
                stack.append((t, True))
                for a in t.args:
                    if a.id not in memo:
                        stack.append((a, False))
        return [memo[t.id] for t in terms]

    def symbols(self, terms):
        seen, out, st = set(), [], list(terms)
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            if t.op == 'sym':
                out.append(t)
            st.extend(t.args)
        return out


_F = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    'neg': lambda a: -a, 'sqrt': np.sqrt, 'sin': np.sin, 'cos': np.cos, 'exp': np.exp, 'ln': np.log,
    'acos': np.arccos, 'atan': np.arctan, 'atan2': np.arctan2, 'tanh': np.tanh, 'sinh': np.sinh,
    'cosh': np.cosh, 'abs': np.abs, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc,
    'round': lambda a: np.sign(a) * np.floor(np.abs(a) + 0.5), 'pow': lambda a, b: a ** b,
    'log10': np.log10, 'log2': np.log2, 'cbrt': np.cbrt, 'fmod': np.fmod,
}


def evaluate(op, args):
    return _F[op](*args)


# ---------------------------------------------------------------- the prover
class Prover:
    def __init__(self, ctx):
        self.c = ctx
        self.zvars = {}
        self.timeout_ms = 20000
        self.zmono = {}
        self.trivial = 0

    # rational form: (numerator poly, denominator: tuple of (poly-key, power))
    def rat(self, t):
        if t.rat is not None:
            return t.rat
        # iterative post-order, the DAG may be deep
        st = [t]
        while st:
            x = st[-1]
            if x.rat is not None:
                st.pop()
                continue
            todo = [a for a in self.deps(x) if a.rat is None]
            if todo:
                st.extend(todo)
                continue
            x.rat = self.rat1(x)
            st.pop()
        return t.rat

    def deps(self, t):
        if t.op in '+-*/' or t.op in ('neg', 'sqrt', 'abs'):
            return t.args
        if t.op in ('sin', 'cos'):
            return t.args
        return ()

    def lcm(self, d1, d2):
        """common denominator; returns (d, m1, m2) with d = d1*m1 = d2*m2"""
        a, b = dict(d1), dict(d2)
        d = dict(a)
        m1, m2 = ONE, ONE
        for k, p in b.items():
            q = a.get(k, 0)
            if p > q:
                d[k] = p
                m1 = pmul(m1, ppow(dict(k), p - q))
        for k, p in a.items():
            q = b.get(k, 0)
            if p > q:
                m2 = pmul(m2, ppow(dict(k), p - q))
        return tuple(d.items()), m1, m2

    def den_poly(self, d):
        r = ONE
        for k, p in d:
            r = pmul(r, ppow(dict(k), p))
        return r

    def dmul(self, d1, d2):
        d = dict(d1)
        for k, p in d2:
            d[k] = d.get(k, 0) + p
        return tuple(d.items())

    def as_atom(self, t, pos=False):
        key = ('atom', t.id)
        p = self.c.table.get(key)
        if p is None:
            p = self.c.table[key] = self.c.atom('%s#%d' % (t.op, t.id), t,
                                                pos=pos or bool(t.flags and 'pos' in t.flags)).poly()
        return (p, ())

    def cancel(self, n, d):
        """remove common monomial/poly factors when it is cheap"""
        if not d or not n:
            return n, ()
        out = []
        for k, p in d:
            if len(k) == 1:
                (m, c), = k
                # monomial denominator: cancel common powers
                while p > 0 and all(self.mdiv(x, m) for x in n):
                    n = {x - m: num(Fraction(v) / c) for x, v in n.items()}
                    p -= 1
            else:
                while p > 0:
                    if len(n) == len(k):
                        # same up to a scalar?
                        kk = dict(k)
                        if n.keys() == kk.keys():
                            m0 = next(iter(kk))
                            r = Fraction(n[m0]) / kk[m0]
                            if all(Fraction(n[m]) == r * kk[m] for m in kk):
                                n = pconst(num(r))
                                p -= 1
                                continue
                    break
            if p > 0:
                out.append((k, p))
        return n, tuple(out)

    def mdiv(self, m, d):
        while d:
            if (m & BM) < (d & BM):
                return False
            m >>= B
            d >>= B
        return True

    def rat1(self, t):
        op = t.op
        if op == 'c':
            return (pconst(num(t.val)), ())
        try:
            if op in '+-':
                (n1, d1), (n2, d2) = t.args[0].rat, t.args[1].rat
                if d1 == d2:
                    d = d1
                else:
                    d, m1, m2 = self.lcm(d1, d2)
                    n1, n2 = pmul(n1, m1), pmul(n2, m2)
                n = padd(n1, n2) if op == '+' else psub(n1, n2)
                return self.cancel(self.reduce(n)[0], d)
            if op == '*':
                (n1, d1), (n2, d2) = t.args[0].rat, t.args[1].rat
                n1, d2 = self.cancel(n1, d2)
                n2, d1 = self.cancel(n2, d1)
                n = self.reduce(pmul(n1, n2))[0]
                return self.cancel(n, self.dmul(d1, d2))
            if op == '/':
                (n1, d1), (n2, d2) = t.args[0].rat, t.args[1].rat
                if not n2:
                    return self.as_atom(t)
                # n1/d1 * d2/n2 ; a divisor that is a product of atoms is split
                n = n1
                dd = dict(d1)
                for k, p in d2:
                    if k in dd:
                        q = min(p, dd[k])
                        p -= q
                        dd[k] -= q
                        if dd[k] == 0:
                            del dd[k]
                    if p:
                        n = pmul(n, ppow(dict(k), p))
                n, d = self.cancel(self.reduce(n)[0], tuple(dd.items()))
                for k, p in self.split(n2):
                    if len(k) == 1 and next(iter(k))[0] == 0:
                        n = pscale(n, 1 / Fraction(next(iter(k))[1]))
                        n = {m: num(v) for m, v in n.items()}
                    else:
                        d = self.dmul(d, ((k, p),))
                return self.cancel(n, d)
            if op == 'neg':
                n, d = t.args[0].rat
                return (pscale(n, -1), d)
            if op in ('sqrt', 'abs'):
                n, d = t.args[0].rat
                if op == 'abs':
                    n, d = self.reduce(pmul(n, n))[0], tuple((k, 2 * p) for k, p in d)
                if d:
                    # sqrt(n/(a^2 b)) = sqrt(n b)/|a b|
                    odd = tuple((k, 1) for k, p in d if p % 2)
                    ab = ()
                    for k, p in d:
                        k1 = k
                        if not self.is_pos(dict(k)):
                            k1 = pkey(self.sqrt_atom(t, self.reduce(pmul(dict(k), dict(k)))[0]))
                        ab = self.dmul(ab, ((k1, (p + 1) // 2),))
                    if odd:
                        n = self.reduce(pmul(n, self.den_poly(odd)))[0]
                    return self.cancel(self.sqrt_atom(t, n), ab)
                return (self.sqrt_atom(t, n), ())
            if op in ('sin', 'cos'):
                return self.trig(t)
        except TooBig:
            pass
        return self.as_atom(t)

    def split(self, p):
        """p as a product of atoms and a rest (monomial content)"""
        if len(p) == 1:
            (m, c), = p.items()
            out = [(frozenset({(0, c)}), 1)] if c != 1 else []
        else:
            ms = list(p)
            m = 0
            sh = 0
            mx = max(ms).bit_length()
            while sh < mx:
                e = min((x >> sh) & BM for x in ms)
                m |= e << sh
                sh += B
            lead = p[max(ms)]
            rest = {x - m: num(Fraction(c) / lead) for x, c in p.items()}
            out = [(pkey(rest), 1)]
            if lead != 1:
                out.append((frozenset({(0, lead)}), 1))
        sh = 0
        while m >> sh:
            e = (m >> sh) & BM
            if e:
                out.append((frozenset({(1 << sh, 1)}), e))
            sh += B
        return out

    def is_pos(self, p):
        """syntactically positive: positive coefficients, even powers or positive atoms"""
        for m, c in p.items():
            if c <= 0:
                return False
            i = 0
            while m:
                e = m & BM
                if e & 1 and not self.c.atoms[i].pos:
                    return False
                m >>= B
                i += 1
        return True

    def sqrt_atom(self, t, n):
        key = ('sqrtpoly', pkey(n))
        a = self.c.table.get(key)
        if a is None:
            if not n:
                return {}
            if len(n) == 1:
                (m, c), = n.items()
                f = Fraction(c)
                # perfect squares of positive atoms
                x, i, half, good = m, 0, 0, f > 0
                while x and good:
                    e = x & BM
                    if e:
                        at = self.c.atoms[i]
                        if e % 2 or not (at.pos or e % 4 == 0):
                            good = False
                        half |= (e // 2) << (B * i)
                    x >>= B
                    i += 1
                if good:
                    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
                    if p * p == f.numerator and q * q == f.denominator:
                        return {half: num(Fraction(p, q))}
            at = self.c.atom('sqrt#%d' % t.id, t, pos=True)
            at.rel = n
            a = at.poly()
            self.c.table[key] = a
        return a

    def trig(self, t):
        """sin/cos as a pair of atoms with s^2 + c^2 = 1; the argument is taken
        modulo pi/2 and up to sign"""
        x = t.args[0]
        n, d = x.rat
        k = 0
        if all(len(f) == 1 and next(iter(f))[1] == 1 for f, p in d):
            m = 1 + sum(next(iter(f))[0] * p for f, p in d)     # pi is atom 0
            q = n.get(m)
            if q is not None and (2 * Fraction(q)).denominator == 1:
                n = {y: c for y, c in n.items() if y != m}
                k = int(2 * Fraction(q)) % 4
        if not n:
            C, S = ONE, {}
        else:
            sg = 1 if n[max(n)] > 0 else -1
            C, S = self.trig_pair(x, n if sg > 0 else pscale(n, -1), d)
            if sg < 0:
                S = pscale(S, -1)
        for _ in range(k):
            C, S = pscale(S, -1), C
        return (S if t.op == 'sin' else C, ())

    def trig_pair(self, x, n, d):
        key = ('trig', pkey(n), frozenset(d) if n else ())
        p = self.c.table.get(key)
        if p is None:
            ca = self.c.atom('cos#%d' % x.id, ('cos', x))
            sa = self.c.atom('sin#%d' % x.id, ('sin', x))
            sa.rel = psub(ONE, ppow(ca.poly(), 2))
            p = self.c.table[key] = (ca.poly(), sa.poly())
        return p

    def linear(self, x):
        """x as a sum of +-terms when one of them is an inverse function or pi*k/2"""
        out, st, hit = [], [(x, 1)], False
        while st:
            y, s = st.pop()
            if y.op == '+':
                st += [(y.args[0], s), (y.args[1], s)]
            elif y.op == '-':
                st += [(y.args[0], s), (y.args[1], -s)]
            elif y.op == 'neg':
                st.append((y.args[0], -s))
            else:
                if y.op in ('acos', 'atan', 'atan2', 'pi'):
                    hit = True
                if y.op == '*' and y.args[0].op in ('c', 'pi') and y.args[1].op in ('c', 'pi'):
                    hit = True
                out.append((y, s))
                if len(out) > 8:
                    return None
        return out if hit else None

    def trig_sum(self, op, terms):
        c = self.c
        q = Fraction(0)       # multiple of pi
        rest = []
        for y, s in terms:
            if y.op == 'pi':
                q += s
            elif y.op == '*' and {y.args[0].op, y.args[1].op} == {'c', 'pi'}:
                k = y.args[0] if y.args[0].op == 'c' else y.args[1]
                q += s * k.val
            else:
                rest.append((y, s))
        if (2 * q).denominator != 1:
            return None
        inv = [(y, s) for y, s in rest if y.op in ('acos', 'atan', 'atan2')]
        oth = [(y, s) for y, s in rest if y.op not in ('acos', 'atan', 'atan2')]
        if q == 0 and not inv:
            return None
        one = c.const(1)
        C, S = one, c.const(0)
        if oth:
            z = c.const(0)
            for y, s in oth:
                z = c.add(z, y if s > 0 else c.neg(y))
            C, S = c.fn('cos', z), c.fn('sin', z)
        for y, s in inv:
            if y.op == 'acos':
                cc = y.args[0]
                ss = c.fn('sqrt', c.sub(one, c.mul(cc, cc)))
            elif y.op == 'atan':
                r = c.fn('sqrt', c.add(one, c.mul(y.args[0], y.args[0])))
                cc, ss = c.div(one, r), c.div(y.args[0], r)
            else:
                yy, xx = y.args
                r = c.fn('sqrt', c.add(c.mul(xx, xx), c.mul(yy, yy)))
                cc, ss = c.div(xx, r), c.div(yy, r)
            if s < 0:
                ss = c.neg(ss)
            C, S = c.sub(c.mul(C, cc), c.mul(S, ss)), c.add(c.mul(S, cc), c.mul(C, ss))
        k = int(2 * q) % 4
        for _ in range(k):
            C, S = c.neg(S), C
        return C if op == 'cos' else S

    # ---- reduction modulo the atoms' relations (all monic squares)
    def reduce(self, p, cert=None):
        atoms = self.c.atoms
        if not p:
            return p, cert
        top = (max(p).bit_length() - 1) // B if max(p) else 0
        for i in range(top, -1, -1):
            at = atoms[i]
            if at.rel is None:
                continue
            sh = at.shift
            hi = {}
            lo = {}
            for m, c in p.items():
                e = (m >> sh) & BM
                if e >= 2:
                    hi[m] = c
                else:
                    lo[m] = c
            while hi:
                # m = v^2 * m'  ->  rel * m'
                q = {m - (2 << sh): c for m, c in hi.items()}
                if cert is not None:
                    cert.append((at, q))
                new = pmul(q, at.rel)
                hi = {}
                for m, c in new.items():
                    if ((m >> sh) & BM) >= 2:
                        hi[m] = hi.get(m, 0) + c
                    else:
                        v = lo.get(m, 0) + c
                        if v == 0:
                            lo.pop(m, None)
                        else:
                            lo[m] = v
                if len(lo) > LIMIT[0]:
                    raise TooBig()
            p = lo
        return p, cert

    # ---- SMT
    def zatom(self, i):
        z = self.zvars.get(i)
        if z is None:
            z = self.zvars[i] = z3.Real('a%d' % i)
        return z

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        out = []
        for m, c in p.items():
            f = []
            if c != 1 or m == 0:
                f.append(z3.RealVal(str(c)))
            i = 0
            while m:
                e = m & BM
                if e:
                    f += [self.zatom(i)] * e
                m >>= B
                i += 1
            out.append(z3.Product(f) if len(f) > 1 else f[0])
        return z3.Sum(out) if len(out) > 1 else out[0]

    def check(self, cons, timeout=None, lra=False):
        s = z3.SolverFor('QF_LRA') if lra else z3.Solver()
        s.set('timeout', timeout or self.timeout_ms)
        s.add(*cons)
        t = time.time()
        r = s.check()
        st = self.c.stats
        st['queries'] += 1
        dt = time.time() - t
        st['solver_s'] += dt
        if PROF and dt > 0.5:
            import sys
            import traceback
            print('QUERY %.1f %s %d' % (dt, r, len(cons)), ' < '.join(
                '%s:%d' % (x.name, x.lineno) for x in traceback.extract_stack()[::-1][1:9]), file=sys.stderr, flush=True)
        st[str(r)] += 1
        return r, s

    def expand(self, r, defs, cert):
        for i in range(len(self.c.atoms) - 1, -1, -1):
            at = self.c.atoms[i]
            if at.defn is None:
                continue
            sh = at.shift
            parts = {}
            for m, c in r.items():
                e = (m >> sh) & BM
                parts.setdefault(e, {})[m - (e << sh)] = c
            if set(parts) == {0}:
                continue
            new, pw = {}, ONE
            for e in range(max(parts) + 1):
                if e in parts:
                    new = padd(new, pmul(parts[e], pw))
                pw = pmul(pw, at.defn)
            defs.append((at, new, r))
            r, _ = self.reduce(new, cert)
            if not r:
                break
        return r

    def equal(self, a, b):
        """prove a = b for all values of the atoms; True only after `unsat`"""
        try:
            (n1, d1), (n2, d2) = self.rat(a), self.rat(b)
            d, m1, m2 = self.lcm(d1, d2)
            lhs, rhs = pmul(n1, m1), pmul(n2, m2)
            diff = psub(lhs, rhs)
            cert = []
            r, _ = self.reduce(diff, cert)
        except TooBig:
            return False
        defs = []
        if r:
            # expand the cut points that have a polynomial definition
            try:
                r = self.expand(r, defs, cert)
            except TooBig:
                return False
            if r:
                return False
        # the certificate: lhs - rhs = sum q_i (v_i^2 - rel_i); hand it to the solver,
        # which decides it over the monomials (each its own real unknown)
        cons = []
        for at, q in cert:
            cons.append(self.zlin(padd(pmul(q, {2 << at.shift: 1}), pscale(pmul(q, at.rel), -1))) == 0)
        for at, new, oldp in defs:
            cons.append(self.zlin(psub(oldp, new)) == 0)
        cons.append(self.zlin(diff) != 0)
        res, _ = self.check(cons, lra=True)
        return res == z3.unsat

    def zlin(self, p):
        """p over one unknown per monomial"""
        out = []
        for m, c in p.items():
            if m == 0:
                out.append(z3.RealVal(str(c)))
                continue
            z = self.zmono.get(m)
            if z is None:
                z = self.zmono[m] = z3.Real('m%x' % m)
            out.append(z if c == 1 else z3.RealVal(str(c)) * z)
        return z3.Sum(out) if len(out) > 1 else out[0] if out else z3.RealVal(0)
