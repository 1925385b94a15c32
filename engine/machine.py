"""Symbolic executor: runs compiled LLVM IR over concrete control flow and
symbolic (exact real) floating point values.  Every point where a symbolic
value decides control flow, every random index and every schedule choice is a
decision; all feasible decision sequences are explored by re-execution."""
import math
import re
import struct
import time
from fractions import Fraction
import numpy as np
import z3
from llir import Compiler, Unsupported, Program, unescape, split_top, NAME
from terms import Ctx, Term, TooBig, K

M64 = (1 << 64) - 1


class PathEnd(Exception):
    def __init__(self, kind, info=''):
        self.kind, self.info = kind, info


# operations whose arguments an enclosure looks at
IVAL = ('+', '-', '*', '/', 'neg', 'tanh', 'exp', 'abs')


class FBits:
    """the bits of a symbolic double seen as an integer"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Frag:
    """a wider load over partly initialised memory: [(offset, size, value)]"""
    __slots__ = ('parts', 'n')

    def __init__(self, parts, n):
        self.parts, self.n = parts, n


def insv(a, v, idx):
    if a is None:
        a = (None,) * (idx[0] + 1)
    i = idx[0]
    x = v if len(idx) == 1 else insv(a[i], v, idx[1:])
    return a[:i] + (x,) + a[i + 1:]


def d2i(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def i2d(x):
    return struct.unpack('<d', struct.pack('<Q', x))[0]


MATH1 = {'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'exp': math.exp, 'log': math.log, 'fabs': abs,
         'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'tanh': math.tanh, 'tan': math.tan,
         'sinh': math.sinh, 'cosh': math.cosh, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
         'log10': math.log10, 'log2': math.log2, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x)}
SYMN = {'log': 'ln', 'fabs': 'abs'}


class Poison:
    """a byte of a symbolic double that was partly overwritten"""

    def bad(self, *a):
        raise Unsupported('use of the bytes of a symbolic double')
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __hash__ = bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = bad
    __xor__ = __rxor__ = __lshift__ = __rshift__ = __int__ = __index__ = __float__ = __neg__ = bad


POISON = Poison()


class SInt:
    """the integer part of a symbolic double, decided when it is needed"""
    __slots__ = ('M', 't', 'lo', 'hi', 'n', 'v')

    def __init__(self, M, t, lo, hi, n):
        self.M, self.t, self.lo, self.hi, self.n, self.v = M, t, lo, hi, n, None

    def force(self):
        if self.v is None:
            v = self.M.intpart(self.t, 'trunc')
            self.v = max(self.lo, min(self.hi, v)) & ((1 << self.n) - 1)
        return self.v
    __hash__ = None


def _sint(name):
    import operator
    f = getattr(operator, name)
    if name in ('neg', 'invert'):
        return lambda a: f(a.force())
    return lambda a, b: f(a.force(), b.force() if type(b) is SInt else b)


for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'and_', 'or_', 'xor', 'lshift', 'rshift', 'eq', 'ne', 'lt', 'le',
           'gt', 'ge', 'neg', 'invert'):
    setattr(SInt, '__%s__' % _n.rstrip('_'), _sint(_n))
for _n in ('add', 'sub', 'mul', 'floordiv', 'mod', 'and_', 'or_', 'xor', 'lshift', 'rshift'):
    setattr(SInt, '__r%s__' % _n.rstrip('_'), (lambda g: lambda a, b: g(b, a.force()))(
        getattr(__import__('operator'), _n)))
SInt.__int__ = SInt.__index__ = SInt.force
SInt.__float__ = lambda a: float(a.force())
SInt.__bool__ = lambda a: a.force() != 0


class Phase:
    """one iteration of a loop run for many at once: what changes from one
    iteration to the next is a Lin; K: how many iterations take the same course"""
    def __init__(self):
        self.live = True
        self.K = None

    def within(self, b, d, lo, hi):
        """b + d j stays in [lo, hi] (which holds b) for the first K iterations"""
        if d > 0 and hi is not None:
            k = (hi - b) // d + 1
        elif d < 0 and lo is not None:
            k = (b - lo) // -d + 1
        else:
            return
        if self.K is None or k < self.K:
            self.K = k


class Lin:
    """the integer b + d j in the j-th iteration from here.  Any use which is not
    followed exactly ends the phase; the value is then b, that of the iteration
    being executed"""
    __slots__ = ('b', 'd', 'ph')

    def __init__(self, b, d, ph):
        self.b, self.d, self.ph = b, d, ph

    def kill(self):
        self.ph.live = False
        return self.b

    __index__ = __int__ = kill

    def __float__(self):
        return float(self.kill())

    def __hash__(self):
        return hash(self.kill())

    def __repr__(self):
        return '%d%+dj' % (self.b, self.d)

    def lin(self, b, d):
        return Lin(b, d, self.ph) if d else b

    def __add__(self, o):
        if self.ph.live:
            if type(o) is int:
                return Lin(self.b + o, self.d, self.ph)
            if type(o) is Lin and o.ph is self.ph:
                return self.lin(self.b + o.b, self.d + o.d)
        return self.kill() + (o.kill() if type(o) is Lin else o)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.b, -self.d, self.ph) if self.ph.live else -self.b

    def __sub__(self, o):
        return self + -o

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        if self.ph.live and type(o) is int:
            return self.lin(self.b * o, self.d * o)
        return self.kill() * (o.kill() if type(o) is Lin else o)

    __rmul__ = __mul__

    def slot(self, c):
        """the multiple of c below, which stays the same"""
        q = self.b // c
        self.ph.within(self.b, self.d, q * c, q * c + c - 1)
        return q

    def __and__(self, m):
        if self.ph.live and type(m) is int and m > 0 and m & (m + 1) == 0:
            return Lin(self.b - self.slot(m + 1) * (m + 1), self.d, self.ph)
        return self.kill() & (m.kill() if type(m) is Lin else m)

    __rand__ = __and__

    def __xor__(self, h):
        if self.ph.live and type(h) is int and h > 0 and h & (h - 1) == 0:
            return self + (h if self.slot(h) % 2 == 0 else -h)
        return self.kill() ^ (h.kill() if type(h) is Lin else h)

    __rxor__ = __xor__

    def __or__(self, o):
        if type(o) is int and o == 0 and self.ph.live:
            return self
        return self.kill() | (o.kill() if type(o) is Lin else o)

    __ror__ = __or__

    def __floordiv__(self, c):
        if self.ph.live and type(c) is int and c > 0:
            return self.slot(c)
        return self.kill() // (c.kill() if type(c) is Lin else c)

    def __mod__(self, c):
        if self.ph.live and type(c) is int and c > 0:
            return Lin(self.b - self.slot(c) * c, self.d, self.ph)
        return self.kill() % (c.kill() if type(c) is Lin else c)

    def __rshift__(self, n):
        if self.ph.live and type(n) is int:
            return self.slot(1 << n)
        return self.kill() >> (n.kill() if type(n) is Lin else n)

    def __lshift__(self, n):
        if type(n) is int:
            return self * (1 << n)
        return self.kill() << (n.kill() if type(n) is Lin else n)

    def __rfloordiv__(self, o):
        return o // self.kill()

    def __rmod__(self, o):
        return o % self.kill()

    def __rlshift__(self, o):
        return o << self.kill()

    def __rrshift__(self, o):
        return o >> self.kill()

    def sign(self, o, cut):
        """compare with o; cut: (last of the lower, first of the upper) values of the difference"""
        x = self - o
        if type(x) is not Lin:
            return x <= cut
        if not x.ph.live:
            return x.b <= cut
        if x.b <= cut:
            x.ph.within(x.b, x.d, None, cut)
            return True
        x.ph.within(x.b, x.d, cut + 1, None)
        return False

    def __lt__(self, o):
        return self.sign(o, -1)

    def __le__(self, o):
        return self.sign(o, 0)

    def __gt__(self, o):
        return not self.sign(o, 0)

    def __ge__(self, o):
        return not self.sign(o, -1)

    def __eq__(self, o):
        if type(o) not in (int, Lin):
            return False
        x = self - o
        if type(x) is not Lin:
            return x == 0
        if x.ph.live:
            if x.b == 0:
                x.ph.within(0, x.d, 0, 0)
            elif x.b % x.d == 0 and -x.b // x.d > 0:
                k = -x.b // x.d
                x.ph.K = k if x.ph.K is None else min(k, x.ph.K)
        return x.b == 0

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        return self != 0


class Mem(dict):
    __slots__ = ()
    log = []


class MemJ(Mem):
    """memory which keeps the old value of all that is written"""
    __slots__ = ()

    def __setitem__(self, k, v, get=dict.get, put=dict.__setitem__, add=Mem.log.append):
        add((k, get(self, k)))
        put(self, k, v)

    def __delitem__(self, k):
        self.log.append((k, self.get(k)))
        dict.__delitem__(self, k)

    def update(self, o):
        for k, v in o.items():
            self[k] = v


class Machine:
    def __init__(self, prog, seed=1):
        self.P = prog
        self.F = []
        self.fids = {}
        self.fname = []
        self.gmem = {}
        self.gaddrs = {}
        self.gnext = 0x10000
        self.fnaddr = {}
        self.addrfn = {}
        self.fnext = 0x7000_0000
        self.ctx = Ctx(seed)
        self.exec_count = {}
        self.intercepts = []       # (regex, handler)
        self.exact = {}            # symbol name -> handler
        self.opts = {}
        self.max_paths = 4000
        self.hide = set()
        import externs
        externs.install(self)
        self.reset()

    # ------------------------------------------------------------ path state
    def reset(self):
        Mem.log.clear()
        self.gen = 0
        self.mem = Mem(self.gmem)
        self.sp = 0x4000_0000
        self.hp = 0x2_0000_0000
        self.sp0 = self.sp
        self.heap = {}
        self.pos = 0
        self.signs = {}            # node id -> (node, allowed signs)
        self.pathcond = []         # [(node, allowed signs)]
        self.alive = np.ones(K, bool)
        self.draws = {'unit': [], 'normal': [], 'index': []}
        self.ints = {}
        self.choices = []
        self.domain = []
        self.exceptional = 0
        self.fails = []
        self.nobl = 0
        self.steps = 0
        self.user = {}
        self.vfs = {}
        self.stdout = []
        self.calls = {}
        self.trace = []
        self.ticks = {}
        self.nticks = 0
        self.errs = {}             # rounding errors: their bounds
        self.errmemo = {}
        self.ivals = {}
        self.lp = {}               # (back edge, frame) -> [snapshot, phase, visits to skip, failures]
        self.phases = 0

    def fid(self, name, mod):
        key = (name, mod.path if name in mod.funcs else None)
        i = self.fids.get(key)
        if i is None:
            i = self.fids[key] = len(self.F)
            self.F.append(self.stub(i, name, mod))
            self.fname.append(name)
        return i

    def stub(self, i, name, mod):
        def first(M, *a):
            fn = self.bind(name, mod)
            self.F[i] = fn
            return fn(M, *a)
        return first

    def dem(self, name):
        return self.P.dem.get(name, name)

    def bind(self, name, mod):
        h = self.exact.get(name)
        if h is not None:
            return self.plain(h)
        d = self.dem(name)
        for rx, h in self.intercepts:
            if rx.search(d):
                return self.plain(h(d) if getattr(h, 'factory', False) else h)
        m = self.P.resolve(name, mod)
        if m is None:
            f = self.P.std_func(name)
            if f is not None:
                return self.bind(*f)

            def missing(M, *a):
                raise Unsupported('extern ' + d)
            return missing
        return self.compile(m, name)

    def plain(self, h):
        def g(M, *a):
            if M.phases:
                a = tuple(int(x) if type(x) is Lin else x for x in a)
            return h(M, *a)
        return g

    def compile(self, m, name):
        key = (m.path, name)
        code = self.P.compiled_src.get(key)
        if code is None:
            src = Compiler(self, m, name).compile()
            code = compile(src, name[:60], 'exec')
            # compiled code refers to function ids: only valid for this machine
            if len(src) < 0:
                self.P.compiled_src[key] = code
        g = {'F': self.F, 'MOD': m, 'T': m.T, 'Unsupported': Unsupported, 'insv': insv, '_': None}
        exec(code, g)
        f = g['f']
        self.exec_count[name] = 0
        ec = self.exec_count

        def counted(M, *a, f=f, name=name):
            ec[name] += 1
            return f(M, *a)
        return counted

    def callname(self, name, *a):
        return self.F[self.fid(name, self.P.where.get(name) or self.P.mods[0])](self, *a)

    def callptr(self, p, *a):
        e = self.addrfn.get(p)
        if e is None:
            raise Unsupported('call through unknown pointer %r' % (p,))
        return self.F[e](self, *a)

    # ------------------------------------------------------------ loops which count
    def snapshot(self, loc):
        """the state; of memory, only what is written from here on will be kept (MemJ)"""
        m = self.mem
        if type(m) is Mem:
            m.__class__ = MemJ
        elif len(m.log) > 200000:
            m.log.clear()
            self.gen += 1
        return (loc, (self.gen, len(m.log)), dict(self.ticks),
                (self.sp, self.hp, self.pos, len(self.stdout), self.nobl, len(self.pathcond), len(self.ints), len(self.signs),
                 sum(map(len, self.draws.values())), sum(self.calls.values()), {k: len(v) for k, v in self.vfs.items()}))

    def written(self, old):
        """what was written since: address -> the value then"""
        gen, i = old[1]
        log = self.mem.log
        if gen != self.gen or len(log) - i > 20000:
            return None
        d = {}
        for k, v in log[i:]:
            if k not in d:
                d[k] = v
        return d

    def loop(self, site, loc):
        """a back edge after something was counted.  When two iterations left all
        but some integers as they were, the next one is run with these as linear
        functions of the number of the iteration; if that iteration maps them to
        their next values, all iterations which take the same course (as far as
        each comparison comes out the same) are done at once."""
        key = (site, self.sp)
        st = self.lp.get(key)
        if st is None:
            st = self.lp[key] = [None, None, 0, 0]
        if st[1] is not None:
            ph, old, dt = st[1]
            st[1] = None
            self.phases -= 1
            was = self.written(old)
            now = self.snapshot(loc)
            good = ph.live and ph.K is not None and ph.K > 0 and now[3] == old[3] and was is not None and \
                self.advanced(ph, old, was, loc) and {k: v - old[2].get(k, 0) for k, v in now[2].items()} == dt
            k = ph.K
            ph.live = False
            if good:
                f = lambda v: v.b + v.d * (k - 1)
                for t, v in dt.items():
                    self.ticks[t] = old[2].get(t, 0) + k * v
                self.nticks += 1
            else:
                f = lambda v: v.b
                st[3] += 1
                st[2] = 1 << min(st[3], 12)
            st[0] = None
            for a in set(was if was is not None else self.mem) | ph.start[1].keys():
                c = self.mem.get(a)
                if c is not None and type(c[0]) is Lin and c[0].ph is ph:
                    self.mem[a] = (f(c[0]), c[1])
            return self.unlin(loc, ph, f)
        if st[2]:
            st[2] -= 1
            return None
        if st[0] is None:
            st[0] = self.snapshot(loc)
            return None
        old = st[0]
        was = self.written(old)
        now = self.snapshot(loc)
        ph = Phase()
        ph.start = self.diff(ph, old, was, loc) if old[3] == now[3] and was is not None else None
        if ph.start is None:
            st[3] += 1
            if st[3] > 3:
                st[0] = None
                st[2] = 1 << min(st[3], 12)
            else:
                st[0] = now
            return None
        st[0] = None
        st[1] = (ph, now, {k: v - old[2].get(k, 0) for k, v in now[2].items()})
        self.phases += 1
        self.mem.update(ph.start[1])
        return ph.start[0]

    def dead(self, a):
        return self.sp <= a < 0x1_0000_0000 and a >= 0x4000_0000

    def unlin(self, v, ph, f):
        if type(v) is tuple:
            return tuple(self.unlin(x, ph, f) for x in v)
        return f(v) if type(v) is Lin and v.ph is ph else v

    no = object()

    def linear(self, ph, a, b):
        """b, with the integers in it which differ from a continued linearly"""
        if a is b:
            return b
        if type(a) is not type(b):
            return self.no
        if type(a) is tuple:
            if len(a) != len(b):
                return self.no
            r = tuple(self.linear(ph, x, y) for x, y in zip(a, b))
            return self.no if any(x is self.no for x in r) else r
        if type(a) is int:
            return b if a == b else Lin(b, b - a, ph)
        if type(a) in (float, str) and a == b:
            return b
        return self.no

    def diff(self, ph, old, was, loc):
        loc = tuple(self.linear(ph, a, b) for a, b in zip(old[0], loc))
        if any(x is self.no for x in loc):
            return None
        mem = {}
        for k, u in was.items():
            v = self.mem.get(k)
            if u is v or self.dead(k):
                continue
            if u is None or v is None or u[1] != v[1]:
                return None
            r = self.linear(ph, u[0], v[0])
            if r is self.no:
                return None
            if self.has(r):
                mem[k] = (r, v[1])
        if len(mem) > 32 or not mem and not self.has(loc):
            return None
        return loc, mem

    def follows(self, ph, a, b):
        """b is the state a of the last iteration, one further on"""
        if a is b:
            return True
        if type(b) is Lin:
            return b.ph is ph and type(a) is int and b.b == a + b.d
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            return all(self.follows(ph, x, y) for x, y in zip(a, b))
        return type(a) is type(b) and type(a) in (int, float, str) and a == b

    def advanced(self, ph, old, was, loc):
        """one iteration took every integer which is linear to its next value, and left the rest"""
        start = ph.start
        for a, b, s in zip(old[0], loc, start[0]):
            if not self.follows(ph, a, b) or not self.samed(s, b):
                return False
        for k in was.keys() | start[1].keys():
            u = was.get(k)
            v = self.mem.get(k)
            s = start[1].get(k)
            if s is not None:
                # installed at the start of the phase: u, the value then
                if v is None or v[1] != s[1] or not self.follows(ph, self.base(s[0]), v[0]) or not self.samed(s[0], v[0]):
                    return False
            elif u is not v and not self.dead(k):
                if u is None or v is None or u[1] != v[1] or self.has(v[0]) or not self.follows(ph, u[0], v[0]):
                    return False
        return True

    def base(self, s):
        if type(s) is tuple:
            return tuple(map(self.base, s))
        return s.b if type(s) is Lin else s

    def has(self, s):
        return type(s) is Lin or type(s) is tuple and any(self.has(x) for x in s)

    def samed(self, s, b):
        if type(s) is Lin:
            return type(b) is Lin and s.d == b.d and s.ph is b.ph
        if type(s) is tuple:
            return type(b) is tuple and len(s) == len(b) and all(self.samed(x, y) for x, y in zip(s, b))
        return not self.has(b)

    # ------------------------------------------------------------ globals
    def gaddr(self, name, mod):
        if name in mod.aliases:
            name = mod.aliases[name]
        if name in mod.globals and not mod.globals[name].startswith(' = external'):
            key = (mod.path, name)
            m = mod
        else:
            m = None
            if name not in mod.funcs:
                for x in self.P.mods + self.P.stdmods:
                    if name in x.globals and not x.globals[name].startswith(' = external'):
                        m = x
                        break
                else:
                    if name in mod.globals:
                        f = self.P.std_global(name)
                        if f is not None:
                            name, m = f
            key = (m.path, name) if m else None
        if m is None:
            fk = self.fid(name, mod)
            a = self.fnaddr.get(fk)
            if a is None:
                a = self.fnaddr[fk] = self.fnext
                self.fnext += 16
                self.addrfn[a] = fk
            return a
        a = self.gaddrs.get(key)
        if a is None:
            rest = m.globals[name]
            mm = re.match(r' = (?:(?:private|internal|external|hidden|unnamed_addr|local_unnamed_addr|constant|global|dso_local|'
                          r'linkonce_odr|weak|thread_local(?:\(\w+\))?|weak_odr|common|available_externally)\s+)+', rest)
            body = rest[mm.end():]
            T = m.T
            t, k = T.parse(body, 0)
            n = T.size(t)
            a = self.gnext
            self.gaddrs[key] = a
            self.gnext += (n + 31) // 16 * 16
            c = Compiler(self, m, name)
            e, _ = c.operand(body, k, t)
            v = eval(e, {'M': self, 'MOD': m})
            save = self.mem
            self.mem = Mem()
            self.put(a, t, v, T)
            new = self.mem
            self.mem = save
            self.gmem.update(new)
            self.mem.update(new)
        return a

    def put(self, a, t, v, T):
        if v is None:
            return
        if isinstance(v, bytes):
            for i, b in enumerate(v):
                self.mem[a + i] = (b, 1)
        elif isinstance(t, str):
            self.st(a, T.size(t), v)
        elif t[0] in 'av':
            s = T.size(t[2])
            for i, x in enumerate(v):
                self.put(a + i * s, t[2], x, T)
        else:
            for o, et, x in zip(T.offsets(t), t[2], v):
                self.put(a + o, et, x, T)

    # ------------------------------------------------------------ memory
    def alloca(self, n):
        a = self.sp
        self.sp = a + ((n + 15) & ~15)
        return a

    def malloc(self, n, align=16):
        a = (self.hp + max(align, 16) - 1) // max(align, 16) * max(align, 16)
        self.hp = a + n + 16
        self.heap[a] = n
        return a

    def st(self, p, n, v):
        mem = self.mem
        if type(p) is Lin:
            p = int(p)
        c = mem.get(p)
        if c is not None and c[1] == n:
            if type(v) is Frag:
                del mem[p]
                self.putfrag(p, v)
            else:
                mem[p] = (v, n)
            return
        self.clear(p, n)
        if type(v) is Frag:
            self.putfrag(p, v)
        elif v is not None:
            mem[p] = (v, n)

    def putfrag(self, p, v):
        for o, s, x in v.parts:
            self.mem[p + o] = (x, s)

    def split(self, a):
        """make a a cell boundary"""
        mem = self.mem
        for k in range(1, 16):
            c = mem.get(a - k)
            if c is not None:
                if c[1] > k:
                    self.explode(a - k)
                return

    def explode(self, a):
        v, n = self.mem[a]
        if type(v) is float:
            v = d2i(v)
        if type(v) is Lin:
            v = int(v)
        if type(v) is not int:
            if type(v) in (Term, FBits):
                # a stale value of a dead stack slot; no live one is ever split
                del self.mem[a]
                for i in range(n):
                    self.mem[a + i] = (POISON, 1)
                return
            if v is POISON or v is None:
                del self.mem[a]
                for i in range(n):
                    self.mem[a + i] = (POISON, 1)
                return
            raise Unsupported('splitting %r' % (v,))
        del self.mem[a]
        for i in range(n):
            self.mem[a + i] = ((v >> (8 * i)) & 255, 1)

    def clear(self, p, n):
        mem = self.mem
        for k in range(1, 16):
            c = mem.get(p - k)
            if c is not None:
                if c[1] > k:
                    self.explode(p - k)
                break
        i = 0
        while i < n:
            c = mem.get(p + i)
            if c is None:
                i += 1
            else:
                if i + c[1] > n:
                    self.explode(p + i)
                    continue
                del mem[p + i]
                i += c[1]

    def ldi(self, p, n):
        """integer load, slow path"""
        if type(p) is Lin:
            p = int(p)
        if type(p) is not int:
            raise Unsupported('load through %r' % (p,))
        c = self.mem.get(p)
        if c is not None and c[1] == n:
            v = c[0]
            if type(v) is float:
                return d2i(v)
            if type(v) is Term:
                return FBits(v)
            if type(v) is Lin and not v.ph.live:
                return v.b
            return v
        self.check_ptr(p)
        if c is not None and c[1] > n:
            v = c[0]
            if type(v) is float:
                v = d2i(v)
            if type(v) is int:
                return v & ((1 << (8 * n)) - 1)
        parts, i = [], 0
        mem = self.mem
        for k in range(1, 16):
            c = mem.get(p - k)
            if c is not None:
                if c[1] > k:
                    self.explode(p - k)
                break
        while i < n:
            c = mem.get(p + i)
            if c is None:
                i += 1
                continue
            if i + c[1] > n:
                self.explode(p + i)
                continue
            parts.append((i, c[1], c[0]))
            i += c[1]
        if not parts:
            return None
        if sum(x[1] for x in parts) == n and all(type(x[2]) in (int, float) for x in parts):
            v = 0
            for o, s, x in parts:
                if type(x) is float:
                    x = d2i(x)
                v |= x << (8 * o)
            return v
        return Frag(parts, n)

    def check_ptr(self, p):
        if p < 0x10000:
            raise PathEnd('ub', 'load/store at address %#x' % p)

    def ldf(self, p):
        c = self.mem.get(p)
        if c is not None and c[1] == 8:
            v = c[0]
            if type(v) is float or type(v) is Term:
                return v
            if type(v) is int:
                return i2d(v)
            if type(v) is FBits:
                return v.t
            return v
        v = self.ldi(p, 8)
        if type(v) is int:
            return i2d(v)
        if type(v) is FBits:
            return v.t
        return v

    def ldf4(self, p):
        v = self.ldi(p, 4)
        return struct.unpack('<f', struct.pack('<I', v))[0]

    def ldagg(self, p, t, T):
        if isinstance(t, str):
            return self.ldf(p) if t == 'double' else self.ldi(p, T.size(t))
        if t[0] in 'av':
            s = T.size(t[2])
            return tuple(self.ldagg(p + i * s, t[2], T) for i in range(t[1]))
        return tuple(self.ldagg(p + o, x, T) for o, x in zip(T.offsets(t), t[2]))

    def stagg(self, p, t, v, T):
        if v is None:
            return
        if isinstance(t, str):
            self.st(p, T.size(t), v)
        elif t[0] in 'av':
            s = T.size(t[2])
            for i in range(t[1]):
                self.stagg(p + i * s, t[2], v[i], T)
        else:
            for o, x, y in zip(T.offsets(t), t[2], v):
                self.stagg(p + o, x, y, T)

    def memcpy(self, d, s, n):
        if type(n) is Lin:
            n = int(n)
        if n == 0:
            return
        if type(n) is not int:
            raise Unsupported('memcpy of symbolic length')
        mem = self.mem
        self.split(s)
        cells, i = [], 0
        while i < n:
            c = mem.get(s + i)
            if c is None:
                i += 1
            elif i + c[1] > n:
                self.explode(s + i)
            else:
                cells.append((i, c))
                i += c[1]
        self.clear(d, n)
        for i, c in cells:
            mem[d + i] = c

    def memset(self, d, b, n):
        self.clear(d, n)
        if n % 8 == 0 and type(b) is int:
            v = int.from_bytes(bytes([b]) * 8, 'little')
            for i in range(0, n, 8):
                self.mem[d + i] = (v, 8)
        else:
            for i in range(n):
                self.mem[d + i] = (b, 1)

    def rd_bytes(self, p, n):
        out = bytearray()
        i = 0
        mem = self.mem
        while i < n:
            c = mem.get(p + i)
            if c is not None and c[1] == 1:
                out.append(c[0])
                i += 1
            else:
                v = self.ldi(p + i, 1)
                if type(v) is not int:
                    raise Unsupported('uninitialised byte in string')
                out.append(v)
                i += 1
        return bytes(out)

    def wr_bytes(self, p, b):
        self.clear(p, len(b))
        mem = self.mem
        for i, x in enumerate(b):
            mem[p + i] = (x, 1)

    def rd_str(self, p, n):
        return self.rd_bytes(p, n).decode('utf-8', 'surrogateescape')

    # ------------------------------------------------------------ scalars
    def iand(self, a, b):
        if type(a) is int and type(b) is int:
            return a & b
        if type(b) is FBits:
            a, b = b, a
        if type(a) is FBits and b == (1 << 63) - 1:
            return FBits(self.ctx.fn('abs', a.t))
        if type(a) is FBits and b == 1 << 63:
            return (1 << 63) if self.fcmp('olt', a.t, 0.0) else 0
        return self.frag_int(a) & self.frag_int(b)

    def ixor(self, a, b):
        if type(a) is int and type(b) is int:
            return a ^ b
        if type(b) is FBits:
            a, b = b, a
        if type(a) is FBits and b == 1 << 63:
            return FBits(self.ctx.neg(a.t))
        if type(a) is not FBits and type(b) is not FBits:
            return self.frag_int(a) ^ self.frag_int(b)
        raise Unsupported('xor of the bits of a symbolic double')

    def lshr(self, a, b):
        if type(a) is int:
            return a >> b
        if type(a) is FBits and b == 63:
            return self.fcmp('olt', a.t, 0.0)
        if type(a) is SInt:
            return a.force() >> b
        if type(a) is Lin:
            return a >> b
        raise Unsupported('bits of a symbolic double')

    def frag_int(self, a):
        if type(a) is int:
            return a
        if type(a) is Frag:
            v = 0
            for o, s, x in a.parts:
                if type(x) is float:
                    x = d2i(x)
                if type(x) is not int:
                    raise Unsupported('integer view of symbolic bytes')
                v |= x << (8 * o)
            return v
        if type(a) is SInt:
            return a.force()
        if type(a) is Lin:
            return int(a)
        raise Unsupported('integer operation on %r' % (a,))

    def trunc(self, a, m):
        if type(a) is int or type(a) is Lin:
            return a & m
        return self.frag_int(a) & m

    def f2i(self, a):
        return d2i(a) if type(a) is float else FBits(a)

    def i2f(self, a):
        if type(a) is FBits:
            return a.t
        return i2d(a)

    def i2d(self, a):
        return float(a.force() if type(a) is SInt else a)

    def fptrunc(self, a):
        if type(a) is float:
            return struct.unpack('<f', struct.pack('<f', a))[0]
        return a

    def sdiv(self, a, b, n):
        a, b = self.sg(a, n), self.sg(b, n)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & ((1 << n) - 1)

    def srem(self, a, b, n):
        a, b = self.sg(a, n), self.sg(b, n)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & ((1 << n) - 1)

    def sg(self, a, n):
        return a - (1 << n) if a >= 1 << (n - 1) else a

    def ovf(self, k, a, b, n):
        m = (1 << n) - 1
        if k[0] == 's':
            a, b = self.sg(a, n), self.sg(b, n)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else:
            lo, hi = 0, m
        r = a + b if k[1:] == 'add' else a - b if k[1:] == 'sub' else a * b
        return (r & m, 0 if lo <= r <= hi else 1)

    def sat(self, k, a, b, n):
        m = (1 << n) - 1
        if k[0] == 's':
            a, b = self.sg(a, n), self.sg(b, n)
            lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        else:
            lo, hi = 0, m
        r = a + b if k[1:] == 'add' else a - b
        return max(lo, min(hi, r)) & m

    def sminmax(self, k, a, b, n):
        x, y = self.sg(a, n), self.sg(b, n)
        return (min(x, y) if k == 'min' else max(x, y)) & ((1 << n) - 1)

    def bits_ctpop(self, a, n):
        return bin(a).count('1')

    def bits_cttz(self, a, n):
        return n if a == 0 else (a & -a).bit_length() - 1

    def bits_ctlz(self, a, n):
        return n - a.bit_length()

    def bits_bswap(self, a, n):
        return int.from_bytes(a.to_bytes(n // 8, 'little'), 'big')

    def bits_abs(self, a, n):
        return abs(self.sg(a, n)) & ((1 << n) - 1)

    def cmp3(self, k, a, b, n):
        n = int(n) if str(n).isdigit() else 64
        if k[0] == 's':
            a, b = self.sg(a, n), self.sg(b, n)
        return 255 if a < b else 1 if a > b else 0

    def fsh(self, k, a, b, c, n):
        c %= n
        m = (1 << n) - 1
        if k == 'fshl':
            return ((a << c) | (b >> (n - c))) & m if c else a
        return ((a << (n - c)) | (b >> c)) & m if c else b

    def rmw(self, op, p, v, n):
        old = self.ldi(p, n)
        m = (1 << (8 * n)) - 1
        new = {'add': lambda: (old + v) & m, 'sub': lambda: (old - v) & m, 'xchg': lambda: v, 'or': lambda: old | v,
               'and': lambda: old & v}[op]()
        self.st(p, n, new)
        return old

    def cmpxchg(self, p, c, v, n):
        old = self.ldi(p, n)
        if old == c:
            self.st(p, n, v)
            return (old, 1)
        return (old, 0)

    # ------------------------------------------------------------ floats
    def isn(self, x):
        return type(x) is float and x != x

    def fdiv(self, a, b):
        if type(b) is float:
            if type(a) is float:
                if b == 0.0:
                    if a == 0.0 or a != a or b != b:
                        return math.nan
                    return math.copysign(math.inf, a) * math.copysign(1.0, b)
                return a / b
            if b == 0.0:
                if self.fcmp('oeq', a, 0.0):
                    return math.nan
                s = 1.0 if self.fcmp('ogt', a, 0.0) else -1.0
                return s * math.copysign(math.inf, b)
            if b != b:
                return b
            if math.isinf(b):
                return 0.0
            return a / b
        if type(a) is float and not math.isfinite(a):
            if a != a:
                return a
            return a if self.fcmp('ogt', b, 0.0) else -a
        if b.op == 'c' and b.val == 0:
            return self.fdiv(a, 0.0)
        e = self.signs.get(b.args[0].id if b.op == 'neg' else b.id)
        if e and e[1] == {0}:
            return self.fdiv(a, 0.0)
        if b.op != 'c':
            self.domain.append(('nonzero', b))
        return a / b

    def frem(self, a, b):
        if type(a) is float and type(b) is float:
            return math.fmod(a, b) if b != 0 else math.nan
        return self.ctx.fn('fmod', a, b)

    def f2int(self, x, signed, n):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if type(x) is Term:
            if x.op == 'c':
                v = math.trunc(x.val)
            else:
                return SInt(self, x, lo, hi, n)
        elif x != x:
            v = 0
        elif math.isinf(x):
            v = hi if x > 0 else lo
        else:
            v = math.trunc(x)
        return max(lo, min(hi, v)) & ((1 << n) - 1)

    def intpart(self, x, how):
        """floor, ceil, trunc or round of a symbolic value: an integer; every
        feasible one is explored"""
        one = self.ctx.const(1)
        if x.op in ('floor', 'ceil', 'trunc', 'round'):
            x, how = x.args[0], x.op
        if how == 'ceil':
            return -self.intpart(self.ctx.neg(x), 'floor')
        if how in ('trunc', 'round') and self.sign_in(self.ctx.lift(x), {-1}):
            return -self.intpart(self.ctx.neg(x), how)
        if how == 'round':
            return self.intpart(self.ctx.add(x, self.ctx.const(0.5)), 'floor')
        g = x.sig[np.isfinite(x.sig) & self.alive]
        if not len(g):
            g = x.sig[np.isfinite(x.sig)]
        if not len(g) or abs(g[0]) > 1e15:
            raise Unsupported('integer part of a value without an estimate')
        k = math.floor(g[0])
        for _ in range(64):
            d = self.ctx.sub(x, self.ctx.const(k))
            if not self.sign_in(self.ctx.lift(d), {0, 1}):
                k -= 1
            elif not self.sign_in(self.ctx.lift(self.ctx.sub(d, one)), {-1}):
                k += 1
            else:
                return k
        raise Unsupported('integer part of an unbounded value')

    def math(self, f, *a):
        if f in ('sin', 'cos') and type(a[0]) is float and a[0] != 0 and math.isfinite(a[0]) and self.user.get('fixed') not in (1, 2):
            t = self.ctx.fn(f, self.ctx.lift(a[0]))     # the exact value: sin(pi) is 0
            return float(t.val) if t.op == 'c' else t
        if all(type(x) is float for x in a if type(x) is not int) and f != 'powi':
            try:
                if f in MATH1:
                    if math.isinf(a[0]) and f in ('floor', 'ceil', 'trunc'):
                        return a[0]
                    return float(MATH1[f](a[0]))
                if f in ('round', 'rint', 'nearbyint', 'roundeven'):
                    x = a[0]
                    if not math.isfinite(x):
                        return x
                    if f == 'round':
                        r = math.floor(abs(x))
                        if abs(x) - r >= 0.5:
                            r += 1
                        return math.copysign(float(r), x)
                    return float(round(x))
                if f == 'pow':
                    return math.pow(*a)
                if f == 'atan2':
                    return math.atan2(*a)
                if f == 'hypot':
                    return math.hypot(*a)
                if f in ('minnum', 'minimum', 'minimumnum'):
                    return a[1] if a[0] != a[0] else a[0] if a[1] != a[1] else min(a)
                if f in ('maxnum', 'maximum', 'maximumnum'):
                    return a[1] if a[0] != a[0] else a[0] if a[1] != a[1] else max(a)
                if f == 'copysign':
                    return math.copysign(*a)
            except ValueError:
                if f in ('log', 'log10', 'log2') and a[0] == 0:
                    return -math.inf
                return math.nan
            except OverflowError:
                return math.inf
        c = self.ctx
        for x in a:
            if self.isn(x):
                return x
        if f in ('floor', 'ceil', 'trunc', 'round') and all(x.val in self.errs for x in c.symbols([c.lift(a[0])])):
            return float(self.intpart(a[0], f))
        if f == 'abs' and self.errs:
            k = self.err_sign(c.lift(a[0]))
            if k is not None:
                return a[0] if k > 0 else c.neg(a[0])
        if f == 'powi':
            n = self.sg(a[1], 32) if a[1] >> 31 else a[1]
            if type(a[0]) is float:
                try:
                    return a[0] ** n
                except ZeroDivisionError:
                    return math.inf
            return c.powi(a[0], n)
        if f == 'pow' and type(a[1]) is float:
            if a[1] == int(a[1]) and abs(a[1]) <= 16:
                return c.powi(c.lift(a[0]), int(a[1]))
            if a[1] == 0.5:
                return self.math('sqrt', a[0])
        if f == 'hypot':
            return c.fn('sqrt', c.add(c.mul(a[0], a[0]), c.mul(a[1], a[1])))
        if f in ('minnum', 'minimum', 'minimumnum'):
            return a[0] if self.fcmp('ole', a[0], a[1]) else a[1]
        if f in ('maxnum', 'maximum', 'maximumnum'):
            return a[0] if self.fcmp('oge', a[0], a[1]) else a[1]
        if f == 'copysign':
            if type(a[1]) is float:
                m = c.fn('abs', a[0])
                return m if math.copysign(1.0, a[1]) > 0 else c.neg(m)
            m = abs(a[0]) if type(a[0]) is float else c.fn('abs', a[0])
            return -m if self.fcmp('olt', a[1], 0.0) else m
        if f == 'sqrt':
            x = c.lift(a[0])
            if x.op != 'c' and not (x.flags and 'pos' in x.flags):
                self.domain.append(('nonneg', x))
        if f in ('log', 'log10', 'log2'):
            self.domain.append(('pos', c.lift(a[0])))
        if f in ('acos', 'asin'):
            self.domain.append(('unit', c.lift(a[0])))
        if f == 'atan2':
            y, x = c.lift(a[0]), c.lift(a[1])
            self.domain.append(('nonzero', c.add(c.mul(x, x), c.mul(y, y))))
        return c.fn(SYMN.get(f, f), *a)

    # ------------------------------------------------------------ decisions
    def choose(self, n, what=''):
        """explore every alternative 0..n-1"""
        return self.branch(list(range(n)), what)

    def branch(self, alts, what=''):
        if len(alts) == 1:
            return alts[0]
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = alts[0]
            for o in alts[1:][::-1]:
                self.todo.append(self.taken + [o])
        self.pos += 1
        self.taken.append(c)
        self.trace.append((what, c))
        return c

    PRED = {'eq': {0}, 'ne': {-1, 1}, 'lt': {-1}, 'gt': {1}, 'le': {-1, 0}, 'ge': {0, 1}}

    def fcmp(self, p, a, b):
        if type(a) is float and type(b) is float:
            un = a != a or b != b
            if p == 'ord':
                return 0 if un else 1
            if p == 'uno':
                return 1 if un else 0
            if un:
                return 1 if p[0] == 'u' else 0
            k = p[1:]
            return 1 if (a == b if k == 'eq' else a != b if k == 'ne' else a < b if k == 'lt' else
                         a > b if k == 'gt' else a <= b if k == 'le' else a >= b) else 0
        for x in (a, b):
            if self.isn(x):
                return 1 if p in ('uno',) or p[0] == 'u' else 0
        if p in ('ord', 'uno'):
            return 1 if p == 'ord' else 0
        for x, s in ((a, 1), (b, -1)):
            if type(x) is float and math.isinf(x):
                sg = s if x > 0 else -s
                return 1 if sg in self.PRED[p[1:]] else 0
        k = self.known_cmp(a, b)
        if k is not None:
            return 1 if k in self.PRED[p[1:]] else 0
        a, b = self.unlog(a, b)
        return 1 if self.sign_in(self.ctx.sub(a, b), self.PRED[p[1:]]) else 0

    def unlog(self, a, b):
        """ln x against y is x against e^y"""
        if type(a) is Term and a.op == 'ln':
            return a.args[0], self.math('exp', b)
        if type(b) is Term and b.op == 'ln':
            return self.math('exp', a), b.args[0]
        return a, b

    def known_cmp(self, a, b):
        """sign of a - b where a decision about an exponent settles it: e^x
        against 1 or against a uniform draw (of (0,1)); None: not so"""
        a, b = self.unlog(a, b)
        for x, y, sg in ((a, b, 1), (b, a, -1)):
            k = 0
            if type(x) is Term and x.op == 'exp':
                x, k = x.args[0], 1
            elif type(x) is Term and x.op == '/' and x.args[1].op == 'exp' and x.args[0].op == 'c' and x.args[0].val == 1:
                x, k = x.args[1].args[0], -1
            if k:
                if type(y) is Term and y.op == 'c':
                    y = float(y.val)
                if type(y) is float:
                    if y <= 0:
                        return sg
                    if y == 1.0:
                        return sg * (1 if self.sign_in(x, {k}) else -1 if self.sign_in(x, {-k}) else 0)
                elif y.op == 'sym' and self.ctx.kinds[y.val][0] == 'unit':
                    if self.sign_in(x, {0, k}):
                        return sg
        return None

    def strict(self, t):
        """-1 or 1 if the sign of t is known on this path"""
        if t.op == 'c':
            return 0 if t.val == 0 else 1 if t.val > 0 else -1
        if t.op == 'neg':
            return -self.strict(t.args[0])
        e = self.signs.get(t.id)
        if e and len(e[1]) == 1:
            return next(iter(e[1]))
        if t.flags and 'pos' in t.flags and t.op not in ('sqrt', 'abs'):
            return 1
        return 0

    def sign_in(self, d, want):
        """is the sign of d in `want`?  forks when both are feasible"""
        if d.op == 'c':
            s = 0 if d.val == 0 else 1 if d.val > 0 else -1
            return s in want
        if d.op == 'neg':
            return self.sign_in(d.args[0], {-x for x in want})
        if d.op in ('*', '/'):
            x, y = d.args
            k = self.strict(y)
            if k:
                return self.sign_in(x, {k * z for z in want})
            k = self.strict(x)
            if k and d.op == '*':
                return self.sign_in(y, {k * z for z in want})
        e = self.signs.get(d.id)
        if not e and self.errs:
            k = self.err_sign(d)
            if k is not None:
                return k in want
        if not e and d.sig[0] == d.sig[1] == d.sig[2] and abs(d.sig[0]) > 1e-9 and not self.ctx.symbols([d]):
            return (1 if d.sig[0] > 0 else -1) in want
        cur = e[1] if e else {-1, 0, 1}
        if not e and d.flags and 'pos' in d.flags:
            cur = {0, 1} if d.op in ('sqrt', 'abs') else {1}
        yes, no = cur & want, cur - want
        if not no:
            return True
        if not yes:
            return False
        if self.pos < len(self.prefix):
            r = self.branch([1, 0], ('sign', d.id))
        else:
            alts = []
            if self.feasible(d, yes):
                alts.append(1)
            if self.feasible(d, no):
                alts.append(0)
            if not alts:
                raise PathEnd('infeasible')
            if len(alts) == 2 and yes == {0}:
                alts = [0, 1]           # the generic case first
            if len(alts) == 2 and self.exceptional >= self.opts.get('max_exceptional', 99):
                # bound: at most so many values which are exactly zero by coincidence
                if yes == {0}:
                    alts = [0]
                elif no == {0}:
                    alts = [1]
            r = self.branch2(alts, ('sign', d.id))
        s = yes if r else no
        self.setsign(d, s)
        return bool(r)

    def err_sign(self, d):
        """sign of an expression in nothing but rounding errors, if their bounds settle it"""
        k = self.errmemo.get(d.id, 0)
        if k == 0:
            k = None
            syms = self.ctx.symbols([d])
            if syms and all(x.val in self.errs for x in syms):
                b = self.err_bounds(d)
                if b:
                    c0, w = b
                    if abs(c0) > w:
                        k = 1 if c0 > 0 else -1
            self.errmemo[d.id] = k
        return k

    def err_bounds(self, d):
        """(c, w): the value is within w of c"""
        from terms import B, BM
        try:
            n, den = self.ctx.prover.rat(d)
            if den:
                return None
            c0, w = 0, 0
            for m, c in n.items():
                b, i, mm = 1, 0, m
                while mm:
                    if mm & BM:
                        nd = self.ctx.atoms[i].node
                        if nd.op == 'abs':
                            y = self.err_bounds(nd.args[0])
                            if not y:
                                return None
                            z = abs(y[0]) + y[1]
                        else:
                            z = self.errs[nd.val]
                        b *= z ** (mm & BM)
                    mm >>= B
                    i += 1
                if m:
                    w += abs(c) * b
                else:
                    c0 = c
            return c0, w
        except (TooBig, AttributeError, KeyError):
            return None

    def branch2(self, alts, what):
        # like branch, but a forced decision is recorded too (replays must line up)
        c = alts[0]
        for o in alts[1:]:
            self.todo.append(self.taken + [o])
        self.pos += 1
        self.taken.append(c)
        self.trace.append((what, c))
        return c

    def setsign(self, d, s):
        self.signs[d.id] = (d, s)
        self.pathcond.append((d, s))
        if s == {0}:
            self.exceptional += 1
        v = np.sign(np.where(np.isfinite(d.sig), d.sig, 0))
        ok = np.zeros(K, bool)
        for x in s:
            ok |= v == x
        self.alive &= ok

    def feasible(self, d, s):
        v = np.sign(np.where(np.isfinite(d.sig), d.sig, 0))
        m = np.zeros(K, bool)
        for x in s:
            m |= (v == x) & np.isfinite(d.sig)
        if (m & self.alive).any():
            return True
        # queries that time out get less and less time
        r = self.smt_path(extra=[(d, s)], timeout=max(200, int(4000 / (1 + self.slow))))
        if r == z3.unknown:
            self.slow += 1
        return r != z3.unsat

    def enc_sign(self, d, s):
        """z3 constraint: the sign of d is in s"""
        pr = self.ctx.prover
        n, den = pr.rat(d)
        e = pr.zpoly(n)
        used = [n]
        for k, p in den:
            kk = dict(k)
            if p % 2 and not pr.is_pos(kk):
                e = e * pr.zpoly(kk)
            used.append(kk)
        dens = [pr.zpoly(dict(k)) != 0 for k, p in den]
        c = {frozenset({-1}): e < 0, frozenset({0}): e == 0, frozenset({1}): e > 0, frozenset({-1, 0}): e <= 0,
             frozenset({0, 1}): e >= 0, frozenset({-1, 1}): e != 0}[frozenset(s)]
        return [c] + dens, used

    def smt_path(self, extra=(), timeout=5000, want_model=False):
        """satisfiability of the path condition and `extra`"""
        pr = self.ctx.prover
        cons, used = [], []
        try:
            for d, s in list(self.pathcond) + list(extra):
                c, u = self.enc_sign(d, s)
                cons += c
                used += u
        except TooBig:
            return z3.unknown
        cons += self.atom_facts(used)
        r, sol = pr.check(cons, timeout)
        if want_model:
            return r, sol
        return r

    def atom_facts(self, polys):
        pr, atoms = self.ctx.prover, self.ctx.atoms
        from terms import B, BM
        seen, todo, out = set(), list(polys), []
        while todo:
            p = todo.pop()
            for m in p:
                i = 0
                while m:
                    if m & BM and i not in seen:
                        seen.add(i)
                        a = atoms[i]
                        z = pr.zatom(i)
                        if a.rel is not None:
                            out.append(z * z == pr.zpoly(a.rel))
                            todo.append(a.rel)
                        nd = a.node
                        if a.pos:
                            op = nd.op if isinstance(nd, Term) else ''
                            out.append(z >= 0 if op in ('sqrt', 'abs') or op not in ('sym', 'exp', 'pi', 'cosh') else z > 0)
                        if isinstance(nd, Term) and nd.op == 'sym' and nd.val.startswith('unit'):
                            out += [z >= 0, z < 1]
                        if isinstance(nd, Term) and nd.op == 'sym' and nd.val in self.errs:
                            b = z3.RealVal(str(self.errs[nd.val]))
                            out += [z > -b, z < b]
                        if isinstance(nd, Term) and nd.op == 'pi':
                            out += [z > z3.RealVal('3.14159'), z < z3.RealVal('3.1416')]
                        if isinstance(nd, Term) and nd.op == 'tanh':
                            lo, hi = self.interval(nd)
                            out += [z >= z3.RealVal(str(Fraction(lo))), z <= z3.RealVal(str(Fraction(hi)))]
                        if isinstance(nd, Term) and nd.op == 'exp':
                            # exp(x) > 1 iff x > 0
                            x = nd.args[0]
                            try:
                                c1, u1 = self.enc_sign(x, {1})
                                c0, u0 = self.enc_sign(x, {0})
                                out += [(z > 1) == c1[0], (z == 1) == c0[0]]
                                todo += u1
                            except TooBig:
                                pass
                    m >>= B
                    i += 1
        return out

    def bounds_of(self, sym):
        """(lo, hi) from the decisions about this symbol alone"""
        lo, hi = -math.inf, math.inf
        at = self.ctx.atom_of(sym)
        for d, s in self.pathcond:
            try:
                n, den = self.ctx.prover.rat(d)
            except TooBig:
                continue
            k = 1 << at.shift
            if den or k not in n or any(m not in (0, k) for m in n):
                continue
            b = -n.get(0, 0) / n[k]
            up = n[k] > 0
            if s <= {0, 1}:
                lo, hi = (max(lo, b), hi) if up else (lo, min(hi, b))
            if s <= {0, -1}:
                lo, hi = (lo, min(hi, b)) if up else (max(lo, b), hi)
        return float(lo), float(hi)

    def interval(self, t):
        """an enclosure of t: interval arithmetic, rounded outwards"""
        inf = math.inf
        r = self.ivals.get(t.id)
        if r is not None:
            return r
        a = [self.interval(x) for x in t.args if isinstance(x, Term)] if t.op in IVAL else []
        op, lo, hi = t.op, -inf, inf
        if op == 'c':
            lo = hi = float(t.val)
        elif op == 'pi':
            lo = hi = math.pi
        elif op == 'sym':
            lo, hi = self.bounds_of(t)
        elif op == '+':
            lo, hi = a[0][0] + a[1][0], a[0][1] + a[1][1]
        elif op == '-':
            lo, hi = a[0][0] - a[1][1], a[0][1] - a[1][0]
        elif op == 'neg':
            lo, hi = -a[0][1], -a[0][0]
        elif op in ('*', '/'):
            y = a[1]
            if op == '/':
                y = None if y[0] <= 0 <= y[1] else (1 / y[1], 1 / y[0])
            if y and not any(map(math.isinf, a[0] + y)):
                p = [u * v for u in a[0] for v in y]
                lo, hi = min(p), max(p)
        elif op == 'tanh':
            lo, hi = math.tanh(a[0][0]), math.tanh(a[0][1])
        elif op == 'exp':
            try:
                lo, hi = math.exp(a[0][0]), math.exp(a[0][1])
            except OverflowError:
                pass
        elif op == 'abs':
            lo, hi = (0.0 if a[0][0] <= 0 <= a[0][1] else min(map(abs, a[0]))), max(map(abs, a[0]))
        if lo != lo or hi != hi:
            lo, hi = -inf, inf
        if not math.isinf(lo):
            lo -= abs(lo) * 1e-14 + 1e-300
        if not math.isinf(hi):
            hi += abs(hi) * 1e-14 + 1e-300
        if op == 'tanh':
            lo, hi = max(lo, -1.0), min(hi, 1.0)
        self.ivals[t.id] = (lo, hi)
        return lo, hi

    # ------------------------------------------------------------ obligations
    def oblige_eq(self, label, a, b):
        self.nobl += 1
        if type(a) is float and type(b) is float:
            if a == b or abs(a - b) <= 1e-9 * (1 + max(abs(a), abs(b))):
                return
            self.fails.append((label, a, b))
            return
        if self.isn(a) or self.isn(b) or (type(a) is float and math.isinf(a)) or (type(b) is float and math.isinf(b)):
            self.fails.append((label, a, b))
            return
        d = self.ctx.sub(a, b)
        if d.op == 'c':
            if abs(d.val) > 1e-12:
                self.fails.append((label, a, b))
            return
        n = d.args[0] if d.op == 'neg' else d
        e = self.signs.get(n.id)
        if e and e[1] == {0}:
            return
        if any(s == {0} for _, s in self.pathcond) and self.slow_s < 40:
            t0 = time.time()
            r = self.smt_path(extra=[(d, {-1, 1})], timeout=max(200, int(10000 / (1 + self.slow))))
            if r == z3.unsat:
                return
            if r == z3.unknown:
                self.slow += 1
                self.slow_s += time.time() - t0
        self.fails.append((label, a, b))

    def oblige_true(self, label, c):
        self.nobl += 1
        if not c:
            self.fails.append((label, None, None))

    def unreachable(self):
        raise PathEnd('unreachable')

    # ------------------------------------------------------------ exploration
    def explore(self, run, on_path):
        """run(machine) under every feasible decision sequence"""
        self.todo = [[]]
        self.slow = 0
        self.slow_s = 0.0
        n = 0
        while self.todo:
            self.prefix = self.todo.pop()
            self.taken = []
            self.reset()
            n += 1
            if n > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            try:
                run(self)
                end = PathEnd('ok')
            except PathEnd as e:
                end = e
            on_path(self, end)
        return n
