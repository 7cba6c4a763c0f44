"""Models of compiler intrinsics, libc functions and the harness vocabulary (ep_*)."""
import re
from .dom import *
from .ir import P, F, Agg, Poison, NULL
from .mem import read, write, copy_range, fill_range
from .ops import *
from .ops import neg

I = {}
TAG = re.compile(r'^((?:C\d\d[ ,]?)+): ')     # the properties a contract belongs to


class Unsupported(Exception):
    pass


def intr(*names):
    def d(f):
        for n in names:
            I[n] = f
        return f
    return d


def cstr(ip, st, p):
    """decode a constant C string"""
    if not isinstance(p, P) or p.o is None or p.off.t:
        return '?'
    if p.o not in st.mem:
        ip.global_obj(st, p.o)
    out = []
    o = p.off.c
    while len(out) < 400:
        r = read(st, p.o, Lin(o), 1)
        c = st.store.const(r[0][1]) if isinstance(r[0][1], V) else None
        if not c:
            break
        out.append(chr(c))
        o += 1
    return ''.join(out)


# ------------------------------------------------------------------ harness vocabulary
@intr('ep_any_bool', 'ep_more')
def any_bool(ip, st, a, ins):
    n = st.copy()
    st.nfork += 1; n.nfork += 1
    return [(st, C(1, 1)), (n, C(1, 0))]


def _any(w):
    def f(ip, st, a, ins):
        s = new_sym('any%d@%d' % (len(SYMS), ins.line), 0, mask(w))
        sym_bits(s)
        return [(st, V(w, None, SYMS[s].bits))]
    return f


for _w in (8, 16, 32, 64):
    I['ep_any_u%d' % _w] = _any(_w)


@intr('ep_any_float')
def any_float(ip, st, a, ins):
    s = new_sym('anyf%d@%d' % (len(SYMS), ins.line), 0, mask(32)); sym_bits(s)
    return [(st, V(32, None, SYMS[s].bits))]


@intr('ep_any_double')
def any_double(ip, st, a, ins):
    s = new_sym('anyd%d@%d' % (len(SYMS), ins.line), 0, mask(64)); sym_bits(s)
    return [(st, V(64, None, SYMS[s].bits))]


@intr('ep_any_range')
def any_range(ip, st, a, ins):
    """an arbitrary 32 bit value in [lo, hi]; numeric (no bit structure until needed)"""
    s = new_sym('n%d@%d' % (len(SYMS), ins.line), 0, mask(32))
    S = st.store
    if not (S.add_ge(ladd(lsym(s), S.lin(a[0]), -1)) and S.add_ge(ladd(S.lin(a[1]), lsym(s), -1))):
        return []
    return [(st, V(32, S.norm(lsym(s))))]


@intr('ep_assume')
def assume(ip, st, a, ins):
    return [(s, None) for s, v in ip.branch(st, a[0]) if v]


@intr('ep_check')
def check(ip, st, a, ins):
    msg = cstr(ip, st, a[1])
    if ip.prop:
        t = TAG.match(msg)
        if t and ip.prop not in t.group(1):
            return [(st, None)]     # another property: neither decided nor assumed here
    ip.obligation(st, 'contract: ' + msg)
    c = a[0]
    if isinstance(c, Poison):
        if c.imp:
            st.imp = st.imp or c.why
        ip.report(st, 'contract', ins, msg + ' (depends on %s)' % c.why)
        return [(st, None)]
    out = []
    for s, v in ip.branch(st, c):
        if v:
            out.append((s, None))
        else:
            ip.report(s, 'contract', ins, msg)
    return out


@intr('ep_any_bytes')
def any_bytes(ip, st, a, ins):
    p, n = a
    l = st.store.lin(n)
    if not ip.check_access(st, p, l, 'write'):
        return []
    from .mem import own
    o = own(st, p.o)
    tag = 'mem%d' % len(SYMS)
    new_sym(tag, 0, 0)
    o.layers.append(('any', p.off, l, tag))
    return [(st, None)]


@intr('ep_any_array')
def any_array(ip, st, a, ins):
    """a fresh array of exactly n bytes with arbitrary content"""
    l = st.store.lin(a[0])
    fr = st.frames[-1]
    tag = 'arr%d' % len(SYMS)
    new_sym(tag, 0, 0)
    oid = (fr.fid, 'arr', fr.blk, fr.idx)
    ip.new_obj(st, oid, l, ('any', None, None, tag), 'array@%d' % ins.line, 'heap')
    return [(st, P(oid, Lin(0)))]


@intr('ep_new_array')
def new_array(ip, st, a, ins):
    """as ep_any_array, but never replaces the array of an earlier call at the same place"""
    l = st.store.lin(a[0])
    fr = st.frames[-1]
    tag = 'arr%d' % len(SYMS)
    new_sym(tag, 0, 0)
    k = 0
    while (fr.fid, 'new', fr.blk, fr.idx, k) in st.mem:
        k += 1
    oid = (fr.fid, 'new', fr.blk, fr.idx, k)
    ip.new_obj(st, oid, l, ('any', None, None, tag), 'array@%d' % ins.line, 'heap')
    return [(st, P(oid, Lin(0)))]


@intr('ep_raw_array')
def raw_array(ip, st, a, ins):
    """a fresh uninitialised array of exactly n bytes"""
    l = st.store.lin(a[0])
    fr = st.frames[-1]
    oid = (fr.fid, 'raw', fr.blk, fr.idx)
    ip.new_obj(st, oid, l, ('uninit',), 'array@%d' % ins.line, 'heap')
    return [(st, P(oid, Lin(0)))]


@intr('ep_same_array')
def same_array(ip, st, a, ins):
    """do two pointers denote the same address?"""
    p, q = a
    if not isinstance(p, P) or not isinstance(q, P) or p.o != q.o:
        return [(st, C(1, 0))]
    return icmp(st, 'eq', V(64, p.off), V(64, q.off))


@intr('ep_merge')
def merge(ip, st, a, ins):
    return 'merge'


@intr('ep_case')
def case(ip, st, a, ins):
    """keeps the partitions with different case numbers apart in joins and loops"""
    st.ghost['key'] = st.ghost.get('key', ()) + (st.store.const(a[0]),)
    return [(st, None)]


@intr('ep_must')
def must(ip, st, a, ins):
    """of the partitions with this case number some must get to the end of the entry"""
    msg = cstr(ip, st, a[0])
    t = TAG.match(msg)
    if not (ip.prop and t and ip.prop not in t.group(1)):
        ip.obligation(st, 'contract: ' + msg)
        f, file, line = ip.site(st)
        ip.musts[(st.ghost.get('key', ()), msg)] = dict(kind='contract', function=f, file=file, line=line, message=msg + ': nothing gets to the end',
                                                        stack=['%s (%s:%s)' % c for c in ip.where(st)][:12], partition=ip.describe(st), path=st.trace_list(), imprecise=None)
    return [(st, None)]


@intr('ep_note')
def note(ip, st, a, ins):
    st.note(cstr(ip, st, a[0]))
    return [(st, None)]


@intr('ep_dump')
def dump(ip, st, a, ins):
    if not ip.quiet:
        print('DUMP', [repr(x) for x in a], ip.describe(st))
    return [(st, None)]


# ------------------------------------------------------------------ compiler intrinsics / libc
@intr('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')
def memcpy(ip, st, a, ins):
    d, s, n = a[0], a[1], a[2]
    if isinstance(n, Poison):
        if n.imp: st.imp = st.imp or n.why
        ip.report(st, 'uninit', ins, 'length of a copy depends on %s' % n.why)
        return []
    l = st.store.lin(n)
    if not ip.check_access(st, s, l, 'read'):
        return []
    if not ip.check_access(st, d, l, 'write'):
        return []
    l = st.store.norm(l)
    if st.store.entails(neg(l)):
        return [(st, d)]
    copy_range(st, d, s, l)
    return [(st, d)]


@intr('llvm.memset', 'memset')
def memset(ip, st, a, ins):
    d, b, n = a[0], a[1], a[2]
    if isinstance(n, Poison):
        if n.imp: st.imp = st.imp or n.why
        ip.report(st, 'uninit', ins, 'length of a fill depends on %s' % n.why)
        return []
    l = st.store.lin(n)
    if not ip.check_access(st, d, l, 'write'):
        return []
    if isinstance(b, V) and b.w > 8:
        b = cast(st, 'trunc', b, 8)
    if not st.store.entails(neg(st.store.norm(l))):
        fill_range(st, d, b, l)
    return [(st, d)]


@intr('llvm.type.test')
def type_test(ip, st, a, ins):
    vt, md = a
    if isinstance(vt, Poison):
        if vt.imp:
            st.imp = st.imp or 'unknown dynamic type'
        ip.report(st, 'type', ins, 'virtual call on an object that was never constructed (%s)' % vt.why)
        return []
    ip.obligation(st, 'dynamic type')
    if isinstance(vt, P) and isinstance(vt.o, str):
        g = ip.mod.raw_globals.get(vt.o[1:])
        if g and g.get('types'):
            want = md[1]
            if not any(o == vt.off.c and t == want for o, t in g['types']):
                ip.report(st, 'type', ins, 'object used as %s but its dynamic type is %s' % (want, g['dem']))
    return [(st, C(1, 1))]


@intr('llvm.assume', 'llvm.lifetime', 'llvm.dbg', 'llvm.stackrestore', 'llvm.experimental', 'llvm.invariant')
def nop(ip, st, a, ins):
    return [(st, None if ins.t == 'void' else C(64, 0))]


@intr('llvm.expect', 'llvm.launder', 'llvm.strip')
def ident(ip, st, a, ins):
    return [(st, a[0])]


@intr('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')
def minmax(ip, st, a, ins):
    nm = ins.fn.name.split('.')[1]
    r = icmp(st, 'ult' if nm[0] == 'u' else 'slt', a[0], a[1])
    out = []
    for s, c in r:
        k = s.store.const(c) if isinstance(c, V) else None
        if k is None:
            out.append((s, Poison('minmax', True)))
        else:
            out.append((s, a[0] if bool(k) == nm.endswith('min') else a[1]))
    return out


@intr('llvm.trap', 'abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate')
def trap(ip, st, a, ins):
    ip.report(st, 'abort', ins, 'the program is terminated (%s)' % ins.fn.name)
    return []


@intr('_ZdlPv', '_ZdlPvm', 'free', '_ZdaPv')
def dealloc(ip, st, a, ins):
    return [(st, None)]


def load1(ip, st, p):
    """[(state, byte)] or [] when the access is out of bounds (reported)"""
    if not ip.check_access(st, p, 1, 'read'):
        return []
    return read(st, p.o, st.store.norm(p.off), 1)


SCAN = 80


def scan(ip, st, p, limit, ins):
    """Position of the first zero byte at p, or of `limit` (a Lin or None): [(state, position)]; position None: given up."""
    out = []
    live = [st]
    most = SCAN if ip.det < 100000 else 400
    for i in range(most + 1):
        nxt = []
        for s in live:
            if limit is not None:
                for m, w in fork_lin(s, [[Lin(limit.c - i - 1, limit.t)], [Lin(i - limit.c, neg(limit).t)]]):
                    if w == 1:
                        out.append((m, i))
                    else:
                        nxt.append(m)
            else:
                nxt.append(s)
        live = []
        for s in nxt:
            if i == most:
                s.imp = s.imp or 'long text scanned'
                out.append((s, None))
                continue
            for m, b in load1(ip, s, P(p.o, Lin(p.off.c + i, p.off.t), p.ext)) if isinstance(p, P) else load1(ip, s, p):
                if isinstance(b, Poison):
                    if b.imp:
                        m.imp = m.imp or b.why
                    ip.report(m, 'uninit', ins, 'text read depends on %s' % b.why)
                    continue
                for q, v in eqfork(m, b, C(8, 0)):
                    if v:
                        out.append((q, i))
                    else:
                        live.append(q)
        if not live:
            break
    return out


def _unknown_len(w, hi):
    s = new_sym('len%d' % len(SYMS), 0, hi, True)
    return V(w, lsym(s))


@intr('strlen')
def strlen(ip, st, a, ins):
    return [(s, C(64, i) if i is not None else _unknown_len(64, mask(32))) for s, i in scan(ip, st, a[0], None, ins)]


@intr('strnlen')
def strnlen(ip, st, a, ins):
    return [(s, C(64, i) if i is not None else _unknown_len(64, mask(32))) for s, i in scan(ip, st, a[0], st.store.lin(a[1]), ins)]


@intr('strncpy')
def strncpy(ip, st, a, ins):
    d, p, n = a
    l = st.store.lin(n)
    if not ip.check_access(st, d, l, 'write'):
        return []
    out = []
    for s, i in scan(ip, st, p, l, ins):
        l2 = s.store.norm(l)
        if i is None:
            s.imp = s.imp or 'long text copied'
            out.append((s, d))
            continue
        if i:
            copy_range(s, d, p, Lin(i))
        rest = Lin(l2.c - i, l2.t)
        if not s.store.entails(neg(rest)):
            fill_range(s, P(d.o, Lin(d.off.c + i, d.off.t), d.ext), C(8, 0), rest)
        out.append((s, d))
    return out


@intr('strcpy')
def strcpy(ip, st, a, ins):
    d, p = a
    out = []
    for s, i in scan(ip, st, p, None, ins):
        if i is None:
            out.append((s, d))
            continue
        if not ip.check_access(s, d, i + 1, 'write'):
            continue
        copy_range(s, d, p, Lin(i + 1))
        out.append((s, d))
    return out


@intr('memcmp', 'bcmp')
def memcmp(ip, st, a, ins):
    l = st.store.norm(st.store.lin(a[2]))
    if not (ip.check_access(st, a[0], l, 'read') and ip.check_access(st, a[1], l, 'read')):
        return []
    if l.t or l.c > 64:
        return [(st, V(32, lsym(new_sym('memcmp', 0, mask(32), True))))]
    out = []
    live = [st]
    for i in range(l.c):
        nxt = []
        for s in live:
            for m, x in load1(ip, s, P(a[0].o, Lin(a[0].off.c + i, a[0].off.t), a[0].ext)):
                for q, y in load1(ip, m, P(a[1].o, Lin(a[1].off.c + i, a[1].off.t), a[1].ext)):
                    if isinstance(x, Poison) or isinstance(y, Poison):
                        out.append((q, Poison('comparison of undefined bytes', (isinstance(x, Poison) and x.imp) or (isinstance(y, Poison) and y.imp))))
                        continue
                    for r, e in eqfork(q, x, y):
                        if e:
                            nxt.append(r)
                        else:
                            for u, lt in ltfork(r, x, y):
                                out.append((u, C(32, mask(32) if lt else 1)))
        live = nxt
    return out + [(s, C(32, 0)) for s in live]


def _format(ip, st, fmt, args, ins):
    """[(state, lo, hi)]: the length of the text a format and its arguments give, checking the texts it reads"""
    live = [(st, 0, 0, 0)]
    def grow(l, lo, hi):
        return [(s, a + lo, b + hi, k) for s, a, b, k in l]
    pos = 0
    rx = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')
    while pos < len(fmt):
        m = rx.match(fmt, pos) if fmt[pos] == '%' else None
        if not m:
            live = grow(live, 1, 1); pos += 1
            continue
        pos = m.end()
        flags, width, prec, _, conv = m.groups()
        if conv == '%':
            live = grow(live, 1, 1)
            continue
        nxt = []
        for s, a, b, k in live:
            def arg():
                nonlocal k
                k += 1
                return args[k - 1] if k <= len(args) else Poison('a missing argument')
            wlo = whi = int(width) if width and width != '*' else 0
            if width == '*':
                wv = arg()
                c = s.store.const(wv) if isinstance(wv, V) else None
                wlo, whi = (c, c) if c is not None and c < 1 << 31 else (0, 1 << 20)
            pl = Lin(int(prec)) if prec and prec != '*' else None
            if prec == '*':
                pv = arg()
                pl = s.store.norm(s.store.lin(pv)) if isinstance(pv, V) else None
                if pl is None:
                    s.imp = s.imp or 'a precision that is not known'
            v = arg()
            if isinstance(v, Poison):
                if v.imp: s.imp = s.imp or v.why
                ip.report(s, 'uninit', ins, 'text formatted depends on %s' % v.why)
                continue
            if conv == 's':
                if pl is not None and pl.t or pl is None and prec:
                    hi = 1 << 20
                    if pl is not None and not s.store.entails(neg(pl)) and not ip.check_access(s, v, pl, 'read'):
                        continue
                    nxt.append((s, a + wlo, b + max(whi, hi), k))
                    continue
                for s2, i in scan(ip, s, v, pl, ins):
                    lo, hi = (i, i) if i is not None else (SCAN, 1 << 20)
                    nxt.append((s2, a + max(lo, wlo), b + max(hi, whi), k))
            else:
                lo, hi = {'d': (1, 20), 'i': (1, 20), 'u': (1, 20), 'x': (1, 16), 'X': (1, 16), 'o': (1, 22), 'c': (1, 1), 'p': (1, 20)}.get(conv, (1, 330))
                nxt.append((s, a + max(lo, wlo), b + max(hi, whi), k))
        live = nxt
    return [(s, a, b) for s, a, b, _ in live]


TOKEN = 2       # characters that stand for the text of a number


def _token(st, kind, v, k):
    """character k of the text of a number: the same for the same conversion of the same value"""
    key = ('token', kind, st.store.bits(v), k)
    r = OPQ.get(key)
    if r is None:
        r = OPQ[key] = V(8, lsym(new_sym('digit%d' % len(SYMS), 0x2B, 0x39)))
    return r


def _cells(ip, st, fmt, args, ins):
    """[(state, characters)]: the text a format and its arguments give, a number being TOKEN opaque characters"""
    rx = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L)?([a-zA-Z%])')
    live = [(st, [], 0)]
    pos = 0
    while pos < len(fmt):
        m = rx.match(fmt, pos) if fmt[pos] == '%' else None
        if not m or m.group(5) == '%':
            for _, c, _ in live: c.append(C(8, ord(fmt[pos]) & 255))
            pos = m.end() if m else pos + 1
            continue
        pos = m.end()
        flags, width, prec, size, conv = m.groups()
        def star(l, w, dflt):
            """one more number for each state, given in the format or as an argument"""
            if w != '*':
                return [x + (int(w) if w else dflt,) for x in l]
            out = []
            for x in l:
                v = args[x[2]] if x[2] < len(args) else None
                if not isinstance(v, V): raise Unsupported('width or precision of a text')
                for s2, n in enum_value(x[0], v):
                    out.append((s2, list(x[1]), x[2] + 1) + x[3:] + (n - (1 << 32) if n >> 31 else n,))
            return out
        nxt = []
        for s, c, k, wd, pr in star(star(live, width, 0), prec, -1):
            v = args[k] if k < len(args) else Poison('a missing argument')
            if isinstance(v, Poison):
                if v.imp: s.imp = s.imp or v.why
                ip.report(s, 'uninit', ins, 'text formatted depends on %s' % v.why)
                continue
            got = []
            if conv == 's':
                for s2, n in scan(ip, s, v, Lin(pr) if pr >= 0 else None, ins):
                    if n is None: raise Unsupported('a long text')
                    part = [(s2, [])]
                    for j in range(n):
                        part = [(s4, t + [b]) for s3, t in part for s4, b in load1(ip, s3, P(v.o, Lin(v.off.c + j, v.off.t), v.ext))]
                    got += part
            elif conv == 'c' and isinstance(v, V):
                got.append((s, [V(8, None, s.store.bits(v)[:8])]))
            elif isinstance(v, V):
                b = s.store.bits(v)
                if conv in 'diuxXo':
                    l = s.store.lin(v)
                    if l is not None:
                        lo, hi = s.store.lrng(s.store.norm(l))
                        if 0 <= lo:
                            w = max(hi, 0).bit_length()
                            b = tuple(x if i < w else 0 for i, x in enumerate(b))
                    n = 64 if size in ('l', 'll', 'j', 'z', 't') else 8 if size == 'hh' else 16 if size == 'h' else 32
                    if n > len(b): raise Unsupported('argument narrower than its conversion')
                    b = b[:n]
                    kind = conv
                    if conv in 'di':
                        kind = 'd'
                        b = b + (b[-1],) * (64 - len(b))
                        if b[-1] == 0: kind = 'u'
                    else:
                        b = b + (0,) * (64 - len(b))
                else:
                    kind = conv
                kind = (kind, flags, pr)
                got.append((s, [_token(s, kind, V(len(b), None, b), j) for j in range(TOKEN)]))
            else:
                raise Unsupported('a pointer in a text')
            for s2, t in got:
                pad = [C(8, 32)] * (abs(wd) - len(t))
                left = '-' in flags or wd < 0
                nxt.append((s2, c + (t + pad if left else pad + t), k + 1))
        live = nxt
    return [(s, c) for s, c, _ in live]


def enum_value(st, v):
    c = st.store.const(v)
    if c is not None:
        return [(st, c)]
    l = st.store.norm(st.store.lin(v))
    lo, hi = st.store.lrng(l)
    if hi - lo > 300: raise Unsupported('width or precision of a text')
    out = []
    for x in range(lo, hi + 1):
        n = st.copy()
        if n.store.add_eq(Lin(l.c - x, l.t)) and n.store.feasible():
            out.append((n, x))
    return out


@intr('ep_tokens')
def tokens(ip, st, a, ins):
    ip.tokens = True
    return [(st, None)]


def _say(ip, st, a, ins):
    from .mem import write as wr
    d, n, f = a[:3]
    out = []
    for s, cells in _cells(ip, st, cstr(ip, st, f), a[3:], ins):
        ln = s.store.norm(s.store.lin(n))
        for s, w in fork_lin(s, [[Lin(ln.c - len(cells) - 1, ln.t)], [Lin(len(cells) - ln.c, neg(ln).t)]]):
            for s, size in [(s, None)] if w == 0 else enum_value(s, n):
                k = len(cells) if size is None else max(0, size - 1)
                if size != 0:
                    if not ip.check_access(s, d, s.store.norm(ln) if size is None else Lin(size), 'write'):
                        continue
                    for j, c in enumerate(cells[:k] + [C(8, 0)]):
                        wr(s, d.o, Lin(d.off.c + j, d.off.t), 1, c)
                out.append((s, C(32, len(cells))))
    return out


@intr('snprintf')
def snprintf(ip, st, a, ins):
    d, n, f = a[:3]
    if isinstance(n, Poison):
        ip.report(st, 'uninit', ins, 'size of the text depends on %s' % n.why)
        return []
    if getattr(ip, 'tokens', False):
        return _say(ip, st, a, ins)
    out = []
    for s, lo, hi in _format(ip, st, cstr(ip, st, f), a[3:], ins):
        ln = Lin(lo) if lo == hi else lsym(new_sym('text%d' % len(SYMS), lo, hi))
        l = s.store.norm(s.store.lin(n))
        for m, w in fork_lin(s, [[Lin(-l.c, neg(l).t)], [Lin(l.c - 1, l.t)]]):
            if w == 0:
                out.append((m, V(32, ln)))
                continue
            if not ip.check_access(m, d, m.store.norm(l), 'write'):
                continue
            # fits: ln <= l - 1
            dif = ladd(Lin(l.c - 1, l.t), neg(ln))
            for q, z in fork_lin(m, [[dif], [Lin(-dif.c - 1, neg(dif).t)]]):
                end = q.store.norm(ln) if z == 0 else q.store.norm(Lin(l.c - 1, l.t))
                if not q.store.entails(neg(end)):
                    from .mem import own
                    o = own(q, d.o)
                    tag = 'mem%d' % len(SYMS)
                    new_sym(tag, 0, 0)
                    o.layers.append(('any', d.off, end, tag))
                from .mem import write as wr
                e = ladd(d.off, end)
                for q2, _x in [(q, None)]:
                    fill_range(q2, P(d.o, e, d.ext), C(8, 0), Lin(1))
                    out.append((q2, V(32, ln)))
    return out
