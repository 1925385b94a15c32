"""Models of what lies outside the compiled IR: the harness interface
(verif_*), allocation, panics, formatting, files."""
import re
import struct
import sys
from decimal import Decimal
from llir import Unsupported
from terms import Term


def fmt_f64(x, debug=False, prec=None):
    if x != x:
        return 'NaN'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    if prec is not None:
        return '%.*f' % (prec, x)
    if debug and x != 0 and (abs(x) < 1e-5 or abs(x) >= 1e16):
        m, e = ('%r' % x).split('e') if 'e' in repr(x) else (repr(x), '0')
        return m + 'e' + str(int(e))
    s = format(Decimal(repr(x)), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    if s in ('-0', '0') and str(x).startswith('-'):
        s = '-0'
    if debug and '.' not in s:
        s += '.0'
    return s


def token(t):
    return '\x01%d\x02' % t.id


TOKEN = re.compile('\x01(\\d+)\x02')


def wr_string(M, sret, b):
    p = M.malloc(max(len(b), 1), 1)
    M.wr_bytes(p, b)
    M.st(sret, 8, len(b))
    M.st(sret + 8, 8, p if b else 1)
    M.st(sret + 16, 8, len(b))


def rd_string(M, p):
    return M.rd_bytes(M.ldi(p + 8, 8), M.ldi(p + 16, 8))


def format_arguments(M, tmpl, args):
    if args & 1:
        return M.rd_bytes(tmpl, args >> 1).decode()
    out, p, ai = [], tmpl, 0
    while True:
        n = M.ldi(p, 1)
        p += 1
        if n == 0:
            return ''.join(out)
        if n < 0x80:
            out.append(M.rd_bytes(p, n).decode())
            p += n
        elif n == 0x80:
            l = M.ldi(p, 1) | M.ldi(p + 1, 1) << 8
            out.append(M.rd_bytes(p + 2, l).decode())
            p += 2 + l
        else:
            fl = width = prec = None
            if n & 1:
                fl = int.from_bytes(M.rd_bytes(p, 4), 'little')
                p += 4
            if n & 2:
                width = int.from_bytes(M.rd_bytes(p, 2), 'little')
                p += 2
                if n & 16:
                    width = M.ldi(args + 16 * width + 8, 2)
            if n & 4:
                prec = int.from_bytes(M.rd_bytes(p, 2), 'little')
                p += 2
                if n & 32:
                    prec = M.ldi(args + 16 * prec + 8, 2)
            i = ai
            if n & 8:
                i = int.from_bytes(M.rd_bytes(p, 2), 'little')
                p += 2
            ai = i + 1
            v, f = M.ldi(args + 16 * i, 8), M.ldi(args + 16 * i + 8, 8)
            s = fmt_arg(M, v, f, fl, prec, width)
            s = pad(s, fl, width)
            out.append(s)


INTS = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'isize': 8, 'usize': 8}


def pad(s, fl, width):
    if width and len(s) < width and '\x01' not in s:
        fill = chr(fl & 0x1fffff) if fl else ' '
        al = (fl >> 29) & 3 if fl is not None else 3
        k = width - len(s)
        num = re.fullmatch(r'-?[\d.]+', s) is not None
        if fl and fl & (1 << 24) and num:
            s = ('-' if s[0] == '-' else '') + s.lstrip('-').rjust(width - (s[0] == '-'), '0')
        elif al == 0 or (al == 3 and not num):
            s = s + fill * k
        elif al == 1 or al == 3:
            s = fill * k + s
        else:
            s = fill * (k // 2) + s + fill * (k - k // 2)
    return s


def fmt_double(M, v, how, prec, single=False):
    x = M.ldf4(v) if single else M.ldf(v)
    if type(x) is Term:
        if x.op == 'c' and float(x.val) == x.val:
            return fmt_f64(float(x.val), how == 'Debug', prec)
        return token(x) if prec is None else '\x01%d:%d\x02' % (x.id, prec)
    if how == 'LowerExp':
        return '%e' % x
    return fmt_f64(x, how == 'Debug', prec)


def sink(M):
    """functions of a core::fmt::Write which collects what is written"""
    if not hasattr(M, 'sinkfns'):
        def w_str(M, p, s, n):
            M.sinks[p].append(M.rd_bytes(s, n).decode())
            return 0

        def w_char(M, p, c):
            M.sinks[p].append(chr(c))
            return 0

        def w_fmt(M, p, t, a):
            M.sinks[p].append(format_arguments(M, t, a))
            return 0
        M.sinkfns = []
        M.sinks = {}
        for f in (w_str, w_char, w_fmt):
            M.F.append(f)
            M.fname.append('sink')
            M.addrfn[M.fnext] = len(M.F) - 1
            M.sinkfns.append(M.fnext)
            M.fnext += 16
    vt = M.malloc(48, 8)
    for i, x in enumerate([0, 0, 1] + M.sinkfns):
        M.st(vt + 8 * i, 8, x)
    p = M.malloc(8, 8)
    M.sinks[p] = []
    return p, vt


def fmt_arg(M, v, f, fl, prec, width=None):
    fid = M.addrfn.get(f)
    d = M.dem(M.fname[fid]) if fid is not None else '?'
    v0 = v
    for _ in range(4):
        m = re.match(r'<&(?:mut )?(.*) as core::fmt::(\w+)>::fmt$', d)
        if m and not m.group(1).startswith('str ') and m.group(1) != 'str':
            v = M.ldi(v, 8)
            d = '<%s as core::fmt::%s>::fmt' % (m.group(1), m.group(2))
        else:
            break
    m = re.match(r'<(f64|f32) as core::fmt::(\w+)>::fmt', d)
    if m:
        return fmt_double(M, v, m.group(2), prec, m.group(1) == 'f32')
    m = re.match(r'<(\w+) as core::fmt::(?:Display|Debug)>::fmt', d)
    if m and m.group(1) in INTS:
        n = INTS[m.group(1)]
        x = M.ldi(v, n)
        if m.group(1)[0] == 'i':
            x = M.sg(x, 8 * n)
        return str(x)
    if m and m.group(1) == 'bool':
        return 'true' if M.ldi(v, 1) else 'false'
    m = re.match(r'<&?(str|alloc::string::String) as core::fmt::(\w+)>::fmt', d)
    if m:
        if m.group(1) == 'str':
            s = M.rd_bytes(M.ldi(v, 8), M.ldi(v + 8, 8)).decode()
        else:
            s = rd_string(M, v).decode()
        return s if m.group(2) == 'Display' else '"%s"' % s
    # any other type: its own function, writing to a list
    p, vt = sink(M)
    fm = M.malloc(24, 8)
    M.st(fm, 8, p)
    M.st(fm + 8, 8, vt)
    M.st(fm + 16, 4, (fl if fl is not None else 0x60000020) & ~(3 << 27) | (width is not None) << 27 | (prec is not None) << 28)
    M.st(fm + 20, 2, width or 0)
    M.st(fm + 22, 2, prec or 0)
    M.callptr(f, v0, fm)
    return ''.join(M.sinks.pop(p))


def factory(f):
    f.factory = True
    return f


def install(M):
    E = M.exact

    # ---- harness interface
    def sym(M, p, n):
        return M.ctx.sym(M.rd_str(p, n))

    def symr(M, p, n, lo, hi):
        return M.ctx.sym(M.rd_str(p, n), 'range', lo, hi)

    def unit3(M, p, n, out):
        for i, t in enumerate(M.ctx.unit3(M.rd_str(p, n))):
            M.st(out + 8 * i, 8, t)

    def vint(M, p, n, lo, hi):
        k = M.rd_str(p, n)
        lo, hi = M.sg(lo, 64), M.sg(hi, 64)
        if k not in M.ints:
            pin = M.opts.get('pin', {}).get(k)
            if pin is not None:
                M.ints[k] = pin
        if k not in M.ints:
            M.ints[k] = lo + M.choose(hi - lo + 1, 'int ' + k)
        return M.ints[k] & ((1 << 64) - 1)

    def assume(M, c):
        from machine import PathEnd
        if not c:
            raise PathEnd('assume')

    def veq(M, p, n, a, b):
        M.oblige_eq(M.rd_str(p, n), a, b)

    def lemma(M, p, n, a, b):
        M.oblige_eq('lemma: ' + M.rd_str(p, n), a, b)

    def derived(M, p, n, a, b):
        M.nobl += 1          # follows from the lemmas of this path

    def vtrue(M, p, n, c):
        M.oblige_true(M.rd_str(p, n), c)

    def unit(M):
        if M.user.get('fixed') in (1, 2):
            return 0.3
        d = M.draws['unit']
        t = M.ctx.sym('unit%d' % len(d), 'unit')
        d.append(t)
        return t

    def normal(M):
        if M.user.get('fixed') in (1, 3):
            return 0.25
        d = M.draws['normal']
        t = M.ctx.sym('normal%d' % len(d), 'normal')
        d.append(t)
        return t

    def fixed(M, on):
        M.user['fixed'] = on

    def index(M, n):
        if n != 0 and M.user.get('fixed') == 1:
            return 0
        if n == 0:
            from machine import PathEnd
            raise PathEnd('panic', 'gen_range: empty range')
        i = M.choose(n, 'index')
        M.draws['index'].append(i)
        return i

    def bits(M):
        raise Unsupported('raw random bits')

    def draws(M, k):
        return len(M.draws[('unit', 'normal', 'index')[k]])

    def draw(M, k, i):
        kind = ('unit', 'normal', 'index')[k]
        d = M.draws[kind]
        if i < len(d):
            return d[i] if k < 2 else float(d[i])
        if k == 2:
            raise Unsupported('future index draw')
        return M.ctx.sym('%s%d' % (kind, i), kind)

    def choice(M, k, n):
        c = M.choose(n, 'choice %d' % k)
        M.choices.append((k, n, c))
        return c

    def finite(x):
        return type(x) is not float or x - x == 0

    def cut(M, p):
        M.ctx.opaque(M.ldf(p), keep=True)

    def cut3(M, p):
        if not all(finite(M.ldf(p + 8 * i)) for i in range(3)):
            return 0
        return 1 if M.ctx.cut_unit3([M.ldf(p + 8 * i) for i in range(3)]) else 0

    def replaying(M):
        return 0

    def finish(M):
        from machine import PathEnd
        raise PathEnd('ok')

    def expect_panic(M, c):
        M.user['expect_panic'] = c
        M.user['files'] = dict(M.vfs)

    def known(M, a, b):
        """are the two values identical (already proved equal)?"""
        d = M.ctx.sub(a, b) if type(a) is Term or type(b) is Term else None
        if d is None:
            return 1 if a == b else 0
        return 1 if d.op == 'c' and d.val == 0 else 0

    def filetext(M, p, n, out):
        """contents of a virtual file -> String"""
        k = M.rd_str(p, n)
        wr_string(M, out, M.vfs.get(k, '').encode('utf-8', 'replace'))

    def printed(M, out):
        wr_string(M, out, ''.join(M.stdout).encode('utf-8', 'replace'))

    def fileput(M, p, n, q, m):
        M.vfs[M.rd_str(p, n)] = M.rd_str(q, m)

    def fileexists(M, p, n):
        return 1 if M.rd_str(p, n) in M.vfs else 0

    def parse_num(M, p, n):
        return parse_float(M, M.rd_str(p, n))

    def nfiles(M):
        return len(M.vfs)

    def calls(M, p, n):
        return M.calls.get(M.rd_str(p, n), 0)

    E.update(verif_sym=sym, verif_sym_range=symr, verif_unit3=unit3, verif_int=vint, verif_assume=assume, verif_eq=veq,
             verif_lemma=lemma, verif_derived=derived,
             verif_true=vtrue, verif_unit=unit, verif_normal=normal, verif_index=index, verif_bits=bits,
             verif_draws=draws, verif_draw=draw, verif_choice=choice, verif_cut=cut, verif_cut3=cut3,
             verif_replaying=replaying, verif_known=known, verif_file_text=filetext, verif_printed=printed, verif_file_put=fileput,
             verif_file_exists=fileexists, verif_num=parse_num, verif_nfiles=nfiles, verif_calls=calls,
             verif_expect_panic=expect_panic, verif_finish=finish, verif_fixed_draws=fixed)

    def err(M, p, n, b):
        from fractions import Fraction
        k = M.rd_str(p, n)
        M.errs[k] = Fraction(b)
        return M.ctx.sym(k, 'range', -b, b)
    E['verif_err'] = err

    def tick(M, k):
        M.ticks[k] = M.ticks.get(k, 0) + 1
        M.nticks += 1
    E['verif_tick'] = tick
    E['verif_ticks'] = lambda M, k: M.ticks.get(k, 0)

    def glob_count(M, p, n):
        a, _, b = M.rd_str(p, n).partition('*')
        M.user['glob'] = sorted(f for f in M.vfs if len(f) >= len(a) + len(b) and f.startswith(a) and f.endswith(b))
        return len(M.user['glob'])

    def glob_name(M, i, buf):
        b = M.user['glob'][i].encode()
        M.wr_bytes(buf, b)
        return len(b)
    E['verif_glob_count'] = glob_count
    E['verif_glob_name'] = glob_name

    # ---- libm
    for f in ('acos', 'asin', 'atan', 'tanh', 'sinh', 'cosh', 'tan', 'cbrt'):
        E[f] = (lambda f: lambda M, x: M.math(f, x))(f)
    E['atan2'] = lambda M, y, x: M.math('atan2', y, x)
    E['hypot'] = lambda M, x, y: M.math('hypot', x, y)
    E['fmod'] = lambda M, x, y: M.frem(x, y)
    E['pow'] = lambda M, x, y: M.math('pow', x, y)
    E['exp'] = lambda M, x: M.math('exp', x)
    E['expm1'] = lambda M, x: M.math('exp', x) - 1.0
    E['log1p'] = lambda M, x: M.math('log', x + 1.0)

    def memcmp(M, a, b, n):
        x, y = M.rd_bytes(a, n), M.rd_bytes(b, n)
        return 0 if x == y else 1 if x > y else 0xffffffff
    E['memcmp'] = memcmp
    E['bcmp'] = memcmp
    E['strlen'] = lambda M, p: next(i for i in range(1 << 20) if M.ldi(p + i, 1) == 0)
    E['memcpy'] = lambda M, d, s, n: (M.memcpy(d, s, n), d)[1]
    E['memmove'] = E['memcpy']

    # ---- demangled names
    I = M.intercepts

    def on(rx, h):
        I.append((re.compile(rx), h))

    @factory
    def range_next(d):
        n = INTS.get(re.search(r'Range<(\w+)>', d).group(1))

        def h(M, p):
            if n is None:
                raise Unsupported(d)
            lo, hi = M.ldi(p, n), M.ldi(p + n, n)
            sg = (lambda x: M.sg(x, 8 * n)) if d.split('Range<')[1][0] == 'i' else (lambda x: x)
            if sg(lo) >= sg(hi):
                return (0, lo)
            M.st(p, n, (lo + 1) & ((1 << (8 * n)) - 1))
            return (1, lo)
        return h

    on(r'^<core::ops::range::Range<\w+> as core::iter::traits::iterator::Iterator>::next$', range_next)

    on(r'__rust_no_alloc_shim', lambda M: None)
    on(r'__rust_alloc$', lambda M, n, a: M.malloc(n, a))

    def zalloc(M, n, a):
        p = M.malloc(n, a)
        M.memset(p, 0, n)
        return p
    on(r'__rust_alloc_zeroed$', zalloc)

    def dealloc(M, p, n, a):
        M.clear(p, n)
        M.heap.pop(p, None)
    on(r'__rust_dealloc$', dealloc)

    def realloc(M, p, old, a, new):
        q = M.malloc(new, a)
        M.memcpy(q, p, min(old, new))
        return q
    on(r'__rust_realloc$', realloc)

    @factory
    def panics(d):
        def h(M, *a):
            from machine import PathEnd
            msg = d
            try:
                if d.endswith('panicking::panic') or d.endswith('expect_failed'):
                    msg = M.rd_str(a[0], a[1])
                elif 'panic_fmt' in d:
                    msg = format_arguments(M, a[0], a[1])
                elif 'panic_bounds_check' in d:
                    msg = 'index %d out of bounds (len %d)' % (a[0], a[1])
                elif 'unwrap_failed' in d and len(a) >= 2:
                    msg = M.rd_str(a[0], a[1])
            except Exception:
                pass
            raise PathEnd('panic', msg)
        return h
    on(r'^core::panicking::|^core::option::(expect|unwrap)_failed|^core::result::unwrap_failed|slice_index_fail|'
       r'panic_already|handle_alloc_error|^alloc::raw_vec::(handle_error|capacity_overflow)|len_mismatch_fail|'
       r'panic_for_nonpositive|::assert_failed$|panic_access_error|overflow_panic::|begin_panic|rust_begin_unwind|'
       r'^core::str::slice_error_fail|radix_panic|^std::process::abort', panics)

    def clap_exit(M, *a):
        from machine import PathEnd
        raise PathEnd('panic', 'the command line is refused')
    on(r'^<clap_builder::error::Error(<.*>)?>::exit$', clap_exit)

    def exits(M, code):
        from machine import PathEnd
        if code:
            raise PathEnd('panic', 'the program ends with code %d' % code)
        raise Unsupported('exit')
    on(r'^std::process::exit$', exits)

    def grow_one(M, v):
        raise Unsupported('grow_one')

    @factory
    def grow(d):
        m = re.search(r'RawVec<(.*)>>::grow_one', d)
        sizes = {'f64': 8, 'u8': 1, 'usize': 8, 'u64': 8, 'i64': 8, 'u32': 4, 'i32': 4}
        n = sizes.get(m.group(1))

        def h(M, v):
            if n is None:
                raise Unsupported(d)
            cap, p = M.ldi(v, 8), M.ldi(v + 8, 8)
            new = max(4, 2 * cap)
            q = M.malloc(new * n, 8)
            if cap:
                M.memcpy(q, p, cap * n)
                M.clear(p, cap * n)
            M.st(v, 8, new)
            M.st(v + 8, 8, q)
        return h
    on(r'RawVec<(f64|u8|usize|u64|i64|u32|i32)>>::grow_one$', grow)

    # ---- formatting
    @factory
    def double(d):
        how = re.search(r'fmt::(\w+)>', d).group(1)

        def h(M, v, fm):
            fl = M.ldi(fm + 16, 4)
            prec = M.ldi(fm + 22, 2) if fl & (1 << 28) else None
            s = fmt_double(M, v, how, prec, '<f32' in d)
            b = pad(s, fl, M.ldi(fm + 20, 2) if fl & (1 << 27) else None).encode()
            p = M.malloc(max(len(b), 1), 1)
            M.wr_bytes(p, b)
            return M.callptr(M.ldi(M.ldi(fm + 8, 8) + 24, 8), M.ldi(fm, 8), p, len(b)) or 0
        return h
    on(r'^<f(64|32) as core::fmt::(Display|Debug|LowerExp)>::fmt$', double)

    def fmt_write(M, out, vt, tmpl, args):
        b = format_arguments(M, tmpl, args).encode()
        p = M.malloc(max(len(b), 1), 1)
        M.wr_bytes(p, b)
        r = M.callptr(M.ldi(vt + 24, 8), out, p, len(b))
        return r or 0
    on(r'^core::fmt::write$', fmt_write)

    def format_inner(M, sret, tmpl, args):
        wr_string(M, sret, format_arguments(M, tmpl, args).encode())
    on(r'^alloc::fmt::format::format_inner$', format_inner)

    def pr(M, tmpl, args):
        M.stdout.append(format_arguments(M, tmpl, args))
    on(r'^std::io::stdio::_print$', pr)
    on(r'^std::io::stdio::_eprint$', lambda M, t, a: None)

    def str_clone(M, sret, p):
        wr_string(M, sret, rd_string(M, p))
    on(r'<alloc::string::String as core::clone::Clone>::clone$', str_clone)

    @factory
    def int_fmt(d):
        n = {'8': 8, '1': 16, '3': 32, '6': 64}.get(re.search(r'<.(\d|s)', d).group(1), 64)
        signed = d[1] == 'i'

        def h(M, v, p, ln):
            if signed:
                v = M.sg(v, n)
            b = b'%d' % v
            M.wr_bytes(p, b)
            return (p, len(b))
        return h
    on(r'^<[ui](8|16|32|64|size)>::_fmt$', int_fmt)

    # ---- files
    def fopen(M, sret, opts, p, n):
        name = M.rd_str(p, n)
        b = M.rd_bytes(opts, 16) if False else None
        flags = open_flags(M, opts)
        if flags['read'] and not flags['write'] and not flags['append'] and name not in M.vfs:
            io_error(M, sret, 2)
            return
        if flags['truncate'] or name not in M.vfs:
            M.vfs[name] = ''
        fd = M.user.setdefault('nextfd', 3)
        M.user['nextfd'] = fd + 1
        M.user.setdefault('fds', {})[fd] = [name, 0]
        M.st(sret, 4, 0)
        M.st(sret + 4, 4, fd)
    on(r'^<std::fs::OpenOptions>::_open$', fopen)

    def error_kind(M, env, code):
        # core asks std, once std has registered itself
        return M.callname(next(k for k in M.P.where if k.endswith('3sys2io5error4unix17decode_error_kind')), code)
    on(r'^<core::io::error::OsFunctions>::DEFAULT::\{closure#1\}$', error_kind)

    def fwrite(M, f, p, n):
        fp = M.ldi(f, 8) if M.fdref else f
        fd = M.ldi(fp, 4)
        s = M.rd_str(p, n)
        name = M.user['fds'][fd][0]
        M.vfs[name] += s
        M.st_result = None
        return (0, n)
    M.fdref = True
    on(r'^<&std::fs::File as core::io::write::Write>::write$', fwrite)
    E['close'] = lambda M, fd: 0

    def read(M, fd, p, n):
        name, at = M.user['fds'][fd]
        b = M.vfs[name].encode('utf-8', 'surrogateescape')[at:at + n]
        M.user['fds'][fd][1] = at + len(b)
        M.wr_bytes(p, b)
        return len(b)
    E['read'] = read

    def write(M, fd, p, n):
        """of the standard streams (files are written by File::write, above)"""
        if fd not in (1, 2):
            raise Unsupported('write to fd %r' % (fd,))
        if fd == 1:
            M.stdout.append(M.rd_bytes(p, n).decode('utf-8', 'surrogateescape'))
        return n
    E['write'] = write

    def cstr(M, p):
        b = b''
        while True:
            c = M.rd_bytes(p + len(b), 1)
            if c == b'\0':
                return b.decode('utf-8', 'surrogateescape')
            b += c

    def errno(M, e):
        if 'errno' not in M.user:
            M.user['errno'] = M.malloc(4, 4)
        M.st(M.user['errno'], 4, e)
        return 0xffffffff
    E['__errno_location'] = lambda M: (M.user.get('errno') or (errno(M, 0), M.user['errno'])[1])

    def unlink(M, path):
        if cstr(M, path) not in M.vfs:
            return errno(M, 2)
        del M.vfs[cstr(M, path)]
        return 0
    E['unlink'] = unlink

    def rename(M, a, b):
        if cstr(M, a) not in M.vfs:
            return errno(M, 2)
        M.vfs[cstr(M, b)] = M.vfs.pop(cstr(M, a))
        return 0
    E['rename'] = rename
    E['fsync'] = E['fdatasync'] = lambda M, fd: 0

    def statx(M, fd, path, flags, mask, p):
        if not p or not path:
            return errno(M, 14)
        if fd == 0xffffffff & -100:
            name = cstr(M, path)
            if name not in M.vfs:
                return errno(M, 2)
        elif fd in M.user.get('fds', {}):
            name = M.user['fds'][fd][0]
        else:
            raise Unsupported('statx of fd %r' % (fd,))
        M.wr_bytes(p, bytes(256))
        M.st(p, 4, mask)
        M.st(p + 28, 2, 0o100644)
        M.st(p + 40, 8, len(M.vfs[name].encode('utf-8', 'surrogateescape')))
        return 0
    E['statx'] = statx

    def lseek(M, fd, off, whence):
        name, at = M.user['fds'][fd]
        base = {0: 0, 1: at, 2: len(M.vfs[name].encode('utf-8', 'surrogateescape'))}[whence]
        M.user['fds'][fd][1] = base + M.sg(off, 64)
        return M.user['fds'][fd][1]
    E['lseek'] = E['lseek64'] = lseek

    def fread(M, f, p, n):
        """`read` of a descriptor: at most n bytes from where it is"""
        fp = M.ldi(f, 8) if M.fdref else f
        fd = M.ldi(fp, 4)
        name, at = M.user['fds'][fd]
        b = M.vfs[name].encode('utf-8', 'surrogateescape')[at:at + n]
        M.user['fds'][fd][1] = at + len(b)
        M.wr_bytes(p, b)
        return (0, len(b))
    on(r'^<&std::fs::File as std::io::Read>::read$|^<&std::fs::File as core::io::read::Read>::read$', fread)

    def fread1(M, f, p, n):
        q = M.alloca(16)
        M.st(q, 8, f)
        return fread(M, q, p, n)
    on(r'^<std::fs::File as (std::io|core::io::read)::Read>::read$', fread1)

    def fs_write(M, p, n, q, m):
        M.vfs[M.rd_str(p, n)] = M.rd_str(q, m)
        return 0
    on(r'^std::fs::write::inner$', fs_write)

    def f64_parse(M, sret, p, n):
        s = M.rd_str(p, n)
        if TOKEN.fullmatch(s) or s[:1] in ('-', '+') and TOKEN.fullmatch(s[1:]) or re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|inf|infinity|nan)', s, re.I):
            M.st(sret, 1, 0)
            M.st(sret + 8, 8, parse_float(M, s))
        else:
            M.st(sret, 1, 1)
            M.st(sret + 1, 1, 0 if not s else 1)
    on(r'^<f64 as core::str::traits::FromStr>::from_str$', f64_parse)


def open_flags(M, o):
    """std's unix OpenOptions: custom_flags i32, mode u32, then the bools"""
    b = []
    for i in range(16):
        try:
            v = M.ldi(o + i, 1)
        except Exception:
            v = None
        b.append(v)
    return M.openflags(b) if hasattr(M, 'openflags') else dict(zip(
        ('read', 'write', 'append', 'truncate', 'create', 'create_new'), [bool(x) for x in b[8:14]]))


def io_error(M, sret, code):
    M.st(sret, 4, 1)
    M.st(sret + 8, 8, (code << 32) | 2)


def parse_float(M, s):
    s = s.strip()
    m = TOKEN.fullmatch(s)
    if m:
        return M.ctx.nodes[int(m.group(1))]
    m = TOKEN.fullmatch(s[1:]) if s[:1] in ('-', '+') else None
    if m:
        x = M.ctx.nodes[int(m.group(1))]
        return M.ctx.neg(x) if s[0] == '-' else x
    try:
        return float(s)
    except ValueError:
        return float('nan')
