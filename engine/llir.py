"""LLVM IR (text) -> Python.  Functions are parsed and compiled on first use."""
import re
import struct
import subprocess

LAYOUT = {'ptr': (8, 8), 'double': (8, 8), 'float': (4, 4), 'void': (0, 1)}


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------- types
class Types:
    def __init__(self):
        self.named = {}
        self.cache = {}

    def parse(self, s, i=0):
        """parse a type at s[i:]; returns (type, next index).
        types: 'i32','ptr','double',('s',packed,[..]),('a',n,t),('v',n,t)"""
        while s[i] == ' ':
            i += 1
        c = s[i]
        if c == '{':
            return self._struct(s, i + 1, '}', False)
        if c == '<':
            if s[i + 1] == '{':
                t, j = self._struct(s, i + 2, '}', True)
                return t, j + 1
            m = re.compile(r'<(\d+) x ').match(s, i)
            t, j = self.parse(s, m.end())
            assert s[j] == '>'
            return ('v', int(m.group(1)), t), j + 1
        if c == '[':
            m = re.compile(r'\[(\d+) x ').match(s, i)
            t, j = self.parse(s, m.end())
            assert s[j] == ']', s[j:]
            return ('a', int(m.group(1)), t), j + 1
        if c == '%':
            m = re.compile(r'%("[^"]*"|[\w.$-]+)').match(s, i)
            return self.named[m.group(0)], m.end()
        m = re.compile(r'i\d+|ptr|double|float|void|half|fp128|metadata|token|label').match(s, i)
        if not m:
            raise Unsupported('type ' + s[i:i + 40])
        return m.group(0), m.end()

    def _struct(self, s, i, end, packed):
        el = []
        while True:
            while s[i] in ' ,':
                i += 1
            if s[i] == end:
                return ('s', packed, tuple(el)), i + 1
            t, i = self.parse(s, i)
            el.append(t)

    def size(self, t):
        return self.sa(t)[0]

    def sa(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self.cache[t] = self._sa(t)
        return r

    def _sa(self, t):
        if isinstance(t, str):
            if t[0] == 'i':
                n = int(t[1:])
                b = 1
                while b * 8 < n:
                    b *= 2
                return b, min(b, 16)
            return LAYOUT[t]
        if t[0] == 'a':
            s, a = self.sa(t[2])
            return s * t[1], a
        if t[0] == 'v':
            s, a = self.sa(t[2])
            return s * t[1], s * t[1]
        off, al = 0, 1
        for x in t[2]:
            s, a = self.sa(x)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def offsets(self, t):
        out, off = [], 0
        for x in t[2]:
            s, a = self.sa(x)
            if t[1]:
                a = 1
            off = (off + a - 1) // a * a
            out.append(off)
            off += s
        return out


ATTR = re.compile(r'(?:noundef|nonnull|noalias|nocapture|readonly|readnone|writeonly|zeroext|signext|immarg|returned|'
                  r'inreg|allocptr|allocalign|swiftself|nofree|dead_on_return|dead_on_unwind|writable|noext|nest|nofpclass\([^)]*\)|'
                  r'captures\([^)]*\)|range\([^)]*\)|align \d+|align\(\d+\)|dereferenceable\(\d+\)|'
                  r'dereferenceable_or_null\(\d+\)|sret\([^()]*(?:\([^()]*\))?[^()]*\)|byval\([^()]*\)|initializes\(\([^)]*\)[^)]*\)|'
                  r'initializes\((?:\([^)]*\),?\s*)*\))\s+')

FLAGS = re.compile(r'(?:(?:nuw|nsw|exact|disjoint|nneg|inbounds|nusw|samesign|fast|nnan|ninf|nsz|arcp|contract|afn|reassoc|tail|musttail|'
                   r'notail|volatile|atomic|inrange\([^)]*\)|fastcc|coldcc|preserve_mostcc|preserve_allcc|ccc)\s+)+')
NAME = re.compile(r'@("[^"]*"|[\w.$-]+)')
LOCAL = re.compile(r'%("[^"]*"|[\w.$-]+)')


def fp_const(tok):
    if tok.startswith(('0x', 'f0x')):
        tok = tok.lstrip('f')
        return struct.unpack('<d', struct.pack('<Q', int(tok, 16)))[0]
    m = re.match(r'[-+]?(?:qnan|snan|nan)', tok)
    if m:
        return float('nan')
    return float(tok)


class Func:
    __slots__ = ('name', 'header', 'lines', 'mod', 'params', 'ret')


class Module:
    def __init__(self, path):
        self.path = path
        self.T = Types()
        self.funcs = {}
        self.globals = {}
        self.declares = set()
        self.aliases = {}
        pend = []
        with open(path) as f:
            text = f.read()
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = NAME.search(l)
                self.funcs[m.group(1).strip('"')] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('@'):
                m = NAME.match(l)
                rest = l[m.end():]
                if ' alias ' in rest:
                    k = re.search(r'ptr @("[^"]*"|[\w.$-]+)', rest)
                    self.aliases[m.group(1).strip('"')] = k.group(1).strip('"')
                else:
                    self.globals[m.group(1).strip('"')] = rest
            elif l.startswith('declare '):
                m = NAME.search(l)
                self.declares.add(m.group(1).strip('"'))
            elif l.startswith('%') and ' = type ' in l:
                k, v = l.split(' = type ', 1)
                pend.append((k, v))
            i += 1
        self.T.named = {}
        # named types may be used before they are defined
        left = pend
        while left:
            nxt = []
            for k, v in left:
                if v.strip() == 'opaque':
                    self.T.named[k] = 'i8'
                    continue
                try:
                    self.T.named[k] = self.T.parse(v)[0]
                except KeyError:
                    nxt.append((k, v))
            if len(nxt) == len(left):
                break
            left = nxt


def demangle(names):
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    r = {}
    for n, d in zip(names, out):
        d = re.sub(r'\[[0-9a-f]{6,16}\]', '', d)
        r[n] = d
    return r


class Program:
    def __init__(self, paths, std=()):
        self.stdpaths = std
        self.stdmap = None
        self.stdmods = []
        self.mods = [Module(p) for p in paths]
        self.where = {}
        for m in self.mods:
            for f in m.funcs:
                self.where.setdefault(f, m)
        allnames = sorted(set(self.where) | set().union(*[m.declares for m in self.mods]))
        self.dem = demangle(allnames)
        self.bydem = {}
        for k, v in self.dem.items():
            self.bydem.setdefault(v, k)
        self.funcids = {}
        self.compiled_src = {}

    def std(self):
        """the standard library: read only when something there is needed"""
        if self.stdmap is None:
            self.stdmap = ({}, {})
            for p in self.stdpaths:
                m = Module(p)
                self.stdmods.append(m)
                for f in m.funcs:
                    self.where.setdefault(f, m)
                d = demangle(sorted(set(m.funcs) | m.declares | {g for g in m.globals if g.startswith('_R')}))
                self.dem.update(d)
                for f, (head, _) in m.funcs.items():
                    local = ' internal ' in head or ' private ' in head
                    if not local:
                        self.stdmap[0].setdefault(d[f], (f, m))
                for g, rest in m.globals.items():
                    if g.startswith('_R') and not rest.startswith(' = external'):
                        self.stdmap[1].setdefault(d[g], (g, m))
        return self.stdmap

    def std_func(self, name):
        """(name, module) of what another build of the standard library calls `name`"""
        return self.std()[0].get(self.dem.get(name, name))

    def std_global(self, name):
        return self.std()[1].get(demangle([name])[name]) if name.startswith('_R') else None

    def resolve(self, name, mod):
        """module that defines function `name` as seen from `mod`"""
        if mod is not None and name in mod.funcs:
            return mod
        return self.where.get(name)


IDENT = re.compile(r'[^A-Za-z0-9_]')

SIGNED = {'slt', 'sgt', 'sle', 'sge'}
CMP = {'eq': '==', 'ne': '!=', 'ult': '<', 'ugt': '>', 'ule': '<=', 'uge': '>=',
       'slt': '<', 'sgt': '>', 'sle': '<=', 'sge': '>='}
FCMP = {'oeq': '==', 'olt': '<', 'ogt': '>', 'ole': '<=', 'oge': '>='}


def mask(t):
    return (1 << int(t[1:])) - 1


class Compiler:
    """one function -> python source"""

    def __init__(self, machine, mod, name):
        self.m, self.mod, self.name = machine, mod, name
        self.T = mod.T
        self.names = {}
        self.out = []
        self.consts = {}

    def loc(self, tok):
        v = self.names.get(tok)
        if v is None:
            v = self.names[tok] = 'v%d' % len(self.names)
        return v

    # ---- constants / operands:  returns (python expression, next index)
    def operand(self, s, i, t):
        while s[i] == ' ':
            i += 1
        c = s[i]
        if c == '%':
            m = LOCAL.match(s, i)
            return self.loc(m.group(0)), m.end()
        if c == '@':
            m = NAME.match(s, i)
            return self.gref(m.group(1).strip('"')), m.end()
        if c == '{' or (c == '<' and s[i + 1] == '{'):
            end = '}' if c == '{' else '}>'
            i += len(end)
            el = []
            while True:
                while s[i] in ' ,':
                    i += 1
                if s.startswith(end, i):
                    return '(' + ''.join(e + ',' for e in el) + ')', i + len(end)
                et, i = self.T.parse(s, i)
                e, i = self.operand(s, i, et)
                el.append(e)
        if c == '[' or c == '<':
            end = ']' if c == '[' else '>'
            i += 1
            el = []
            while True:
                while s[i] in ' ,':
                    i += 1
                if s[i] == end:
                    return '(' + ''.join(e + ',' for e in el) + ')', i + 1
                et, i = self.T.parse(s, i)
                e, i = self.operand(s, i, et)
                el.append(e)
        if s.startswith('c"', i):
            j = s.index('"', i + 2)
            return repr(unescape(s[i + 2:j])), j + 1
        for kw in ('undef', 'poison'):
            if s.startswith(kw, i):
                return self.zero(t, 'None'), i + len(kw)
        if s.startswith('null', i):
            return '0', i + 4
        if s.startswith('zeroinitializer', i):
            return self.zero(t, None), i + 15
        if s.startswith('true', i):
            return '1', i + 4
        if s.startswith('false', i):
            return '0', i + 5
        if s.startswith('splat', i):
            m = re.compile(r'splat \((\w+) ([^)]*)\)').match(s, i)
            e, _ = self.operand(m.group(2), 0, m.group(1))
            return '((%s,)*%d)' % (e, t[1]), m.end()
        m = re.compile(r'(getelementptr|ptrtoint|inttoptr|bitcast|sub|add|trunc)\b').match(s, i)
        if m:
            return self.cexpr(s, i, m.group(1))
        m = re.compile(r'f?-?\d[\w.+-]*|[-+](?:inf|q?nan|snan)(?:\(\w+\))?').match(s, i)
        tok = m.group(0)
        if t in ('double', 'float'):
            return self.flit(fp_const(tok)), m.end()
        return str(int(tok) & mask(t)), m.end()

    def flit(self, v):
        r = repr(v)
        if r in ('inf', '-inf', 'nan'):
            return 'float("%s")' % r
        return r

    def zero(self, t, u):
        if isinstance(t, str):
            if u:
                return u
            return '0.0' if t in ('double', 'float') else '0'
        if t[0] in ('a', 'v'):
            return '((%s,)*%d)' % (self.zero(t[2], u), t[1])
        return '(' + ''.join(self.zero(x, u) + ',' for x in t[2]) + ')'

    def gref(self, name):
        return 'M.gaddr(%r,MOD)' % name

    def paren(self, s, i):
        """s[i]=='(' -> (inside, index after)"""
        d, j, q = 0, i, False
        while True:
            ch = s[j]
            if ch == '"':
                q = not q
            if not q:
                if ch == '(':
                    d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0:
                        return s[i + 1:j], j + 1
            j += 1

    def cexpr(self, s, i, op):
        j = s.index('(', i)
        inside, end = self.paren(s, j)
        if op == 'getelementptr':
            return self.gep(inside), end
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc'):
            t, k = self.T.parse(inside, 0)
            e, k = self.operand(inside, k, t)
            return e, end
        parts = split_top(inside)
        es = []
        for p in parts:
            t, k = self.T.parse(p, 0)
            es.append(self.operand(p, k, t)[0])
        return '((%s%s%s)&%d)' % (es[0], '-' if op == 'sub' else '+', es[1], (1 << 64) - 1), end

    def gep(self, s):
        s = s.strip()
        m = FLAGS.match(s)
        if m:
            s = s[m.end():]
        parts = split_top(s)
        t, _ = self.T.parse(parts[0], 0)
        bt, k = self.T.parse(parts[1], 0)
        base, _ = self.operand(parts[1], k, bt)
        off, dyn = 0, []
        cur = t
        for n, p in enumerate(parts[2:]):
            it, k = self.T.parse(p, 0)
            e, _ = self.operand(p, k, it)
            const = int(e) if re.fullmatch(r'\d+', e) else None
            if const is not None and const >> (int(it[1:]) - 1):
                const -= 1 << int(it[1:])
            if n == 0:
                sz = self.T.size(cur)
            elif cur[0] == 's':
                off += self.T.offsets(cur)[const]
                cur = cur[2][const]
                continue
            else:
                cur = cur[2]
                sz = self.T.size(cur)
            if const is not None:
                off += sz * const
            elif sz == 1:
                dyn.append(e)
            else:
                dyn.append('%s*%d' % (e, sz))
        e = base
        if dyn:
            e = '(%s+%s%s)&0xffffffffffffffff' % (base, '+'.join(dyn), '+%d' % off if off else '')
            return '(%s)' % e
        if off > 0:
            return '(%s+%d)' % (base, off)
        if off < 0:
            return '(%s-%d)' % (base, -off)
        return e

    # ---- function
    def compile(self):
        header, lines = self.mod.funcs[self.name]
        m = NAME.search(header)
        inside, _ = self.paren(header, header.index('(', m.end()))
        params = []
        for p in split_top(inside):
            p = p.strip()
            if not p or p == '...':
                continue
            k = p.rfind('%')
            params.append(self.loc(p[k:].strip()))
        # blocks
        blocks, cur = [], None
        idx = 0
        while idx < len(lines):
            l = lines[idx]
            idx += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            if l[0] != ' ':
                lab = l.split(';')[0].rstrip()
                assert lab.endswith(':'), l
                cur = ('%' + lab[:-1], [])
                blocks.append(cur)
                continue
            if cur is None:
                cur = ('%0', [])
                blocks.append(cur)
            t = l.strip()
            if t.startswith('switch ') and t.endswith('['):
                while not lines[idx].strip().startswith(']'):
                    t += ' ' + lines[idx].strip()
                    idx += 1
                t += ' ]'
                idx += 1
            elif t.startswith('invoke ') or ' = invoke ' in t:
                if ' unwind label' not in t:
                    t += ' ' + lines[idx].strip()
                    idx += 1
            elif re.search(r'= landingpad', t):
                while idx < len(lines) and lines[idx].strip() in ('cleanup',) or lines[idx].strip().startswith(('catch', 'filter')):
                    t += ' ' + lines[idx].strip()
                    idx += 1
            cur[1].append(t)
        self.bid = {b[0]: i for i, b in enumerate(blocks)}
        # phis
        self.phis = {}
        for lab, ins in blocks:
            ph = []
            for t in ins:
                mm = re.match(r'(%\S+|%"[^"]*") = phi (.*)', t)
                if not mm:
                    break
                ty, k = self.T.parse(mm.group(2), 0)
                inc = {}
                rest = mm.group(2)[k:]
                for q in split_brackets(rest):
                    a, b = split_top(q)
                    inc[b.strip()] = self.operand(a.strip(), 0, ty)[0]
                ph.append((self.loc(mm.group(1)), inc))
            self.phis[lab] = ph
        o = self.out
        o.append('def f(M%s):' % ''.join(',' + p for p in params))
        o.append(' mem=M.mem;sp=M.sp')
        self.loops = []
        head = len(o)
        single = len(blocks) == 1
        self.single = single
        ind = ' '
        if not single:
            o.append(' bb=0')
            o.append(' while True:')
            ind = '   '
        for i, (lab, ins) in enumerate(blocks):
            if not single:
                o.append('  if bb==%d:' % i)
            self.cur = lab
            self.curi = i
            n0 = len(o)
            for t in ins:
                try:
                    for s in self.instr(t):
                        o.append(ind + s)
                except (Unsupported, KeyError, AssertionError, ValueError, AttributeError, IndexError) as e:
                    o.append(ind + 'raise Unsupported(%r)' % ('%s: %s [%s]' % (type(e).__name__, e, t[:200])))
            if len(o) == n0:
                o.append(ind + 'pass')
        src = '\n'.join(o)
        if self.loops:
            # back edges of iterations which count something may skip ahead (Machine.loop)
            own = sorted({v for v in self.names.values() if v not in params}, key=lambda v: int(v[1:]))
            o.insert(head, ' nt=M.nticks' + (';' + '='.join(own) + '=None' if own else ''))
            live = self.liveness(blocks)
            src = re.sub('@(\\d+)@', lambda m: ''.join(v + ',' for v in sorted(live[int(m.group(1))])), '\n'.join(o))
        return src

    def liveness(self, blocks):
        """per block, the variables a jump to it hands on (its phis included)"""
        N = self.names
        use, dfs, succ, edge = [], [], [], {}
        for i, (lab, ins) in enumerate(blocks):
            u, d, s = set(), set(), set()
            for t in ins:
                m = re.match(r'(%"[^"]*"|%[\w.$-]+) = (.*)', t)
                toks = re.findall(r'%"[^"]*"|%[\w.$-]+', m.group(2) if m else t)
                if m and m.group(2).startswith('phi '):
                    for v, p in re.findall(r'\[ *([^\[\]]*?), (%"[^"]*"|%[\w.$-]+) \]', m.group(2)):
                        edge.setdefault((p, i), set()).update(N[x] for x in re.findall(r'%"[^"]*"|%[\w.$-]+', v) if x in N)
                else:
                    u |= {N[x] for x in toks if x in N} - d
                    s |= {self.bid[x] for x in toks if x in self.bid}
                if m and m.group(1) in N:
                    d.add(N[m.group(1)])
            use.append(u)
            dfs.append(d)
            succ.append(s)
        phi = [{p[0] for p in self.phis[lab]} for lab, _ in blocks]
        live = [set(u) for u in use]
        change = True
        while change:
            change = False
            for i in range(len(blocks) - 1, -1, -1):
                out = set()
                for j in succ[i]:
                    out |= live[j] - phi[j]
                    out |= edge.get((blocks[i][0], j), set())
                new = use[i] | out - dfs[i]
                if not new <= live[i]:
                    live[i] |= new
                    change = True
        return [l | p for l, p in zip(live, phi)]

    def goto(self, lab):
        out = []
        ph = self.phis[lab]
        if ph:
            l = ','.join(p[0] for p in ph)
            r = ','.join(p[1][self.cur] for p in ph)
            if l != r:
                out.append('%s=%s' % (l, r))
        j = self.bid[lab]
        out.append('bb=%d' % j)
        if j <= self.curi:
            self.loops.append(j)
            out.append('if M.nticks!=nt:')
            out.append(' nt=M.nticks;L=M.loop(%r,(@%d@))' % ('%s:%d:%d' % (self.name, self.curi, j), j))
            out.append(' if L:(@%d@)=L' % j)
            out.append('continue')
        return out

    def instr(self, t):
        t = strip_md(t)
        dst = None
        m = re.match(r'(%"[^"]*"|%[\w.$-]+) = (.*)', t)
        if m:
            dst, t = self.loc(m.group(1)), m.group(2)
        op, _, rest = t.partition(' ')
        f = getattr(self, 'i_' + op, None)
        if f is None:
            raise Unsupported(op)
        return f(dst, rest)

    def flags(self, s):
        m = FLAGS.match(s)
        return s[m.end():] if m else s

    def two(self, s):
        s = self.flags(s)
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        k = s.index(',', k) + 1
        b, k = self.operand(s, k, t)
        return t, a, b

    def i_phi(self, d, s):
        return []

    def i_alloca(self, d, s):
        t, k = self.T.parse(s, 0)
        n = self.T.size(t)
        rest = s[k:]
        m = re.match(r', i\d+ (\S+?),', rest)
        if m:
            raise Unsupported('vla')
        return ['%s=M.alloca(%d)' % (d, n)]

    def i_load(self, d, s):
        s = self.flags(s)
        t, k = self.T.parse(s, 0)
        k = s.index(',', k) + 1
        pt, k = self.T.parse(s, k)
        p, k = self.operand(s, k, pt)
        return self.load(d, t, p)

    def load(self, d, t, p):
        T = self.T
        if isinstance(t, str):
            if t == 'double':
                return ['c=mem.get(%s)' % p,
                        '%s=c[0] if c is not None and type(c[0]) is float and c[1]==8 else M.ldf(%s)' % (d, p)]
            if t == 'float':
                return ['%s=M.ldf4(%s)' % (d, p)]
            n = T.size(t)
            post = '&1' if t == 'i1' else ''
            return ['c=mem.get(%s)' % p,
                    '%s=(c[0] if c is not None and type(c[0]) is int and c[1]==%d else M.ldi(%s,%d))%s' % (d, n, p, n, post)]
        return ['%s=M.ldagg(%s,%r,T)' % (d, p, t)]

    def i_store(self, d, s):
        s = self.flags(s)
        t, k = self.T.parse(s, 0)
        v, k = self.operand(s, k, t)
        k = s.index(',', k) + 1
        pt, k = self.T.parse(s, k)
        p, k = self.operand(s, k, pt)
        return self.store(t, v, p)

    def store(self, t, v, p):
        if isinstance(t, str):
            n = self.T.size(t)
            return ['M.st(%s,%d,%s)' % (p, n, v)]
        return ['M.stagg(%s,%r,%s,T)' % (p, t, v)]

    def i_getelementptr(self, d, s):
        return ['%s=%s' % (d, self.gep(s))]

    def bin(self, d, s, fmt, signed=False):
        t, a, b = self.two(s)
        if not isinstance(t, str):
            raise Unsupported('vector op')
        mk = mask(t)
        return ['%s=%s' % (d, fmt.format(a=a, b=b, m=mk, n=int(t[1:]), h=1 << (int(t[1:]) - 1)))]

    def i_add(self, d, s):
        return self.bin(d, s, '({a}+{b})&{m}')

    def i_sub(self, d, s):
        return self.bin(d, s, '({a}-{b})&{m}')

    def i_mul(self, d, s):
        return self.bin(d, s, '({a}*{b})&{m}')

    def i_and(self, d, s):
        return self.bin(d, s, 'M.iand({a},{b})')

    def i_or(self, d, s):
        return self.bin(d, s, '{a}|{b}')

    def i_xor(self, d, s):
        return self.bin(d, s, 'M.ixor({a},{b})')

    def i_shl(self, d, s):
        return self.bin(d, s, '({a}<<{b})&{m}')

    def i_lshr(self, d, s):
        return self.bin(d, s, 'M.lshr({a},{b})')

    def i_ashr(self, d, s):
        return self.bin(d, s, '((({a}^{h})-{h})>>{b})&{m}')

    def i_udiv(self, d, s):
        return self.bin(d, s, '{a}//{b}')

    def i_urem(self, d, s):
        return self.bin(d, s, '{a}%{b}')

    def i_sdiv(self, d, s):
        return self.bin(d, s, 'M.sdiv({a},{b},{n})')

    def i_srem(self, d, s):
        return self.bin(d, s, 'M.srem({a},{b},{n})')

    def fbin(self, d, s, fmt):
        t, a, b = self.two(s)
        if t != 'double':
            raise Unsupported('float op on ' + str(t))
        return ['%s=%s' % (d, fmt.format(a=a, b=b))]

    def i_fadd(self, d, s):
        return self.fbin(d, s, '{a}+{b}')

    def i_fsub(self, d, s):
        return self.fbin(d, s, '{a}-{b}')

    def i_fmul(self, d, s):
        return self.fbin(d, s, '{a}*{b}')

    def i_fdiv(self, d, s):
        return self.fbin(d, s, 'M.fdiv({a},{b})')

    def i_frem(self, d, s):
        return self.fbin(d, s, 'M.frem({a},{b})')

    def i_fneg(self, d, s):
        s = self.flags(s)
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        return ['%s=-%s' % (d, a)]

    def i_icmp(self, d, s):
        s = self.flags(s)
        p, _, s = s.partition(' ')
        if p in ('samesign',):
            p, _, s = s.partition(' ')
        t, a, b = self.two(s)
        if not isinstance(t, str):
            raise Unsupported('vector icmp')
        if p in SIGNED:
            h = 1 << (63 if t == 'ptr' else int(t[1:]) - 1)
            sg = lambda e: str(int(e) ^ h) if e.isdigit() else '(%s^%d)' % (e, h)
            a, b = sg(a), sg(b)
        return ['%s=1 if M.icmp_%s(%s,%s) else 0' % (d, p, a, b)] if False else \
               ['%s=1 if %s%s%s else 0' % (d, a, CMP[p], b)]

    def i_fcmp(self, d, s):
        s = self.flags(s)
        p, _, s = s.partition(' ')
        t, a, b = self.two(s)
        return ['%s=M.fcmp(%r,%s,%s)' % (d, p, a, b)]

    def i_select(self, d, s):
        s = self.flags(s)
        p = split_top(s)
        t, k = self.T.parse(p[0], 0)
        if not isinstance(t, str):
            raise Unsupported('vector select')
        c, _ = self.operand(p[0], k, t)
        t, k = self.T.parse(p[1], 0)
        a, _ = self.operand(p[1], k, t)
        t, k = self.T.parse(p[2], 0)
        b, _ = self.operand(p[2], k, t)
        return ['%s=%s if %s else %s' % (d, a, c, b)]

    def cast(self, s):
        s = self.flags(s)
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        assert s[k:k + 4] == ' to ', s
        t2, _ = self.T.parse(s, k + 4)
        return t, a, t2

    def i_trunc(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=M.trunc(%s,%d)' % (d, a, mask(t2))]

    def i_zext(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=%s' % (d, a)]

    def i_sext(self, d, s):
        t, a, t2 = self.cast(s)
        h = 1 << (int(t[1:]) - 1)
        return ['%s=((%s^%d)-%d)&%d' % (d, a, h, h, mask(t2))]

    def i_ptrtoint(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=%s&%d' % (d, a, mask(t2))]

    def i_ptrtoaddr(self, d, s):
        return self.i_ptrtoint(d, s)

    def i_inttoptr(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=%s' % (d, a)]

    def i_bitcast(self, d, s):
        t, a, t2 = self.cast(s)
        if t == 'double' and t2 == 'i64':
            return ['%s=M.f2i(%s)' % (d, a)]
        if t == 'i64' and t2 == 'double':
            return ['%s=M.i2f(%s)' % (d, a)]
        if t == t2:
            return ['%s=%s' % (d, a)]
        raise Unsupported('bitcast')

    def i_uitofp(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=M.i2d(%s)' % (d, a)]

    def i_sitofp(self, d, s):
        t, a, t2 = self.cast(s)
        h = 1 << (int(t[1:]) - 1)
        return ['%s=M.i2d((%s^%d)-%d)' % (d, a, h, h)]

    def i_fptoui(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=M.f2int(%s,0,%d)' % (d, a, int(t2[1:]))]

    def i_fptosi(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=M.f2int(%s,1,%d)' % (d, a, int(t2[1:]))]

    def i_fpext(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=%s' % (d, a)]

    def i_fptrunc(self, d, s):
        t, a, t2 = self.cast(s)
        return ['%s=M.fptrunc(%s)' % (d, a)]

    def i_freeze(self, d, s):
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        return ['%s=%s' % (d, a)]

    def i_extractvalue(self, d, s):
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        idx = re.findall(r'\d+', s[k:])
        return ['%s=%s%s' % (d, a, ''.join('[%s]' % i for i in idx))]

    def i_insertvalue(self, d, s):
        p = split_top(s)
        t, k = self.T.parse(p[0], 0)
        a, k = self.operand(p[0], k, t)
        t2, k = self.T.parse(p[1], 0)
        v, k = self.operand(p[1], k, t2)
        idx = [int(x) for x in p[2:]]
        return ['%s=insv(%s,%s,%r)' % (d, a, v, tuple(idx))]

    def i_ret(self, d, s):
        if s.strip() == 'void':
            return ['M.sp=sp;return None']
        t, k = self.T.parse(s, 0)
        a, k = self.operand(s, k, t)
        return ['M.sp=sp;return %s' % a]

    def i_br(self, d, s):
        if s.startswith('label '):
            return self.goto(s[6:].strip())
        m = re.match(r'i1 (.*?), label (\S+|%"[^"]*"), label (\S+|%"[^"]*")$', s)
        c, _ = self.operand(m.group(1), 0, 'i1')
        out = ['if %s:' % c]
        out += [' ' + x for x in self.goto(m.group(2))]
        out += ['else:']
        out += [' ' + x for x in self.goto(m.group(3))]
        return out

    def i_switch(self, d, s):
        k = s.index('[')
        head, tail = s[:k], s[k + 1:s.rindex(']')]
        t, j = self.T.parse(head, 0)
        v, j = self.operand(head, j, t)
        deflt = re.search(r'label (%"[^"]*"|\S+)', head).group(1)
        out = []
        kw = 'if'
        for mm in re.finditer(r'i\d+ (-?\d+|true|false), label (%"[^"]*"|[^\s]+)', tail):
            x = {'true': 1, 'false': 0}.get(mm.group(1))
            x = int(mm.group(1)) & mask(t) if x is None else x
            out.append('%s %s==%d:' % (kw, v, x))
            out += [' ' + y for y in self.goto(mm.group(2))]
            kw = 'elif'
        if kw == 'if':
            return self.goto(deflt)
        out.append('else:')
        out += [' ' + y for y in self.goto(deflt)]
        return out

    def i_unreachable(self, d, s):
        return ['M.unreachable()']

    def i_fence(self, d, s):
        return []

    def i_resume(self, d, s):
        return ['M.unreachable()']

    def i_landingpad(self, d, s):
        return ['M.unreachable()']

    def i_atomicrmw(self, d, s):
        s = self.flags(s)
        op, _, s = s.partition(' ')
        p = split_top(s)
        t, k = self.T.parse(p[0], 0)
        a, _ = self.operand(p[0], k, t)
        t, k = self.T.parse(p[1], 0)
        v, _ = self.operand(p[1], k, t)
        return ['%s=M.rmw(%r,%s,%s,%d)' % (d or '_', op, a, v, self.T.size(t))]

    def i_cmpxchg(self, d, s):
        s = self.flags(s)
        s = re.sub(r'^weak ', '', s)
        s = self.flags(s)
        p = split_top(s)
        t, k = self.T.parse(p[0], 0)
        a, _ = self.operand(p[0], k, t)
        t, k = self.T.parse(p[1], 0)
        c, _ = self.operand(p[1], k, t)
        v, _ = self.operand(p[2], self.T.parse(p[2], 0)[1], t)
        return ['%s=M.cmpxchg(%s,%s,%s,%d)' % (d, a, c, v, self.T.size(t))]

    def i_invoke(self, d, s):
        k = s.rindex(' to label ')
        m = re.match(r' to label (%"[^"]*"|\S+) unwind label', s[k:])
        out = self.i_call(d, s[:k])
        return out + self.goto(m.group(1))

    def i_tail(self, d, s):
        return self.i_call(d, s[5:])

    def i_call(self, d, s):
        s = self.flags(s)
        while True:
            m = ATTR.match(s)
            if not m:
                break
            s = s[m.end():]
        t, k = self.T.parse(s, 0)
        s = s[k:].lstrip()
        if s[0] == '(':      # varargs fn type
            _, k = self.paren(s, 0)
            s = s[k:].lstrip()
        if s[0] == '@':
            m = NAME.match(s)
            name = m.group(1).strip('"')
            fnexpr = None
            k = m.end()
        elif s.startswith('asm '):
            raise Unsupported('asm')
        else:
            m = LOCAL.match(s)
            name = None
            fnexpr = self.loc(m.group(0))
            k = m.end()
        inside, _ = self.paren(s, k)
        args = []
        for a in split_top(inside):
            a = a.strip()
            if not a:
                continue
            if a.startswith('metadata'):
                args.append('None')
                continue
            at, k = self.T.parse(a, 0)
            r = a[k:].lstrip() + ' '
            while True:
                m = ATTR.match(r)
                if not m:
                    break
                r = r[m.end():]
            e, _ = self.operand(r, 0, at)
            args.append(e)
        al = ''.join(',' + a for a in args)
        if name is None:
            call = 'M.callptr(%s%s)' % (fnexpr, al)
        elif name.startswith('llvm.'):
            call = self.intrinsic(name, t, args)
            if call is None:
                return []
        else:
            call = 'F[%d](M%s)' % (self.m.fid(name, self.mod), al)
        return ['%s=%s' % (d, call) if d else call]

    def intrinsic(self, name, t, a):
        n = name[5:]
        b = n.split('.')
        if b[0] in ('lifetime', 'assume', 'dbg', 'experimental', 'donothing', 'var', 'invariant', 'prefetch'):
            return None
        if b[0] in ('memcpy', 'memmove'):
            return 'M.memcpy(%s,%s,%s)' % tuple(a[:3])
        if b[0] == 'memset':
            return 'M.memset(%s,%s,%s)' % tuple(a[:3])
        if len(b) >= 3 and b[1] == 'with' and b[2] == 'overflow':
            return 'M.ovf(%r,%s,%s,%d)' % (b[0], a[0], a[1], int(b[3][1:]))
        if b[0] in ('uadd', 'usub', 'sadd', 'ssub') and b[1] == 'sat':
            return 'M.sat(%r,%s,%s,%d)' % (b[0], a[0], a[1], int(b[2][1:]))
        if b[0] in ('fptoui', 'fptosi') and b[1] == 'sat':
            return 'M.f2int(%s,%d,%d)' % (a[0], b[0] == 'fptosi', int(b[2][1:]))
        if b[-1] == 'f64' or (b[0] in ('powi', 'ldexp')):
            if b[0] in ('fma', 'fmuladd'):
                return '(%s*%s+%s)' % tuple(a)
            return 'M.math(%r%s)' % (b[0], ''.join(',' + x for x in a))
        if b[0] in ('expect',):
            return a[0]
        if b[0] == 'is' and b[1] == 'constant':
            return '0'
        if b[0] in ('umin', 'umax'):
            return '%s(%s,%s)' % (b[0][1:], a[0], a[1])
        if b[0] in ('smin', 'smax'):
            return 'M.sminmax(%s,%s,%s,%d)' % (b[0][1:], a[0], a[1], int(b[1][1:]))
        if b[0] in ('ctpop', 'cttz', 'ctlz', 'bswap', 'abs', 'bitreverse'):
            return 'M.bits_%s(%s,%d)' % (b[0], a[0], int(b[1][1:]))
        if b[0] in ('ucmp', 'scmp'):
            return 'M.cmp3(%r,%s,%s,%s)' % (b[0], a[0], a[1], b[2][1:])
        if b[0] in ('fshl', 'fshr'):
            return 'M.fsh(%r,%s,%s,%s,%d)' % (b[0], a[0], a[1], a[2], int(b[1][1:]))
        if b[0] == 'trap':
            return 'M.unreachable()'
        if b[0] == 'threadlocal':
            return a[0]
        if b[0] == 'x86':
            return None
        raise Unsupported('intrinsic ' + name)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def split_top(s):
    out, d, q, b = [], 0, False, 0
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        elif not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(s[b:i].strip())
                b = i + 1
    out.append(s[b:].strip())
    return out


def split_brackets(s):
    out, d, b, q = [], 0, 0, False
    for i, ch in enumerate(s):
        if ch == '"':
            q = not q
        if q:
            continue
        if ch == '[':
            if d == 0:
                b = i + 1
            d += 1
        elif ch == ']':
            d -= 1
            if d == 0:
                out.append(s[b:i].strip())
    return out


MD = re.compile(r'(?:, ![\w.]+ (?:![\w.]+(?:\([^)]*\))?|!\{\}|!DIExpression\(\)))+\s*$')


def strip_md(t):
    if '!' in t:
        t = MD.sub('', t)
    # trailing attribute group / operand bundles of calls
    t = re.sub(r'\)( #\d+)+$', ')', t)
    t = re.sub(r'\)( #\d+)? \[ "[^\]]*\]$', ')', t)
    return t
