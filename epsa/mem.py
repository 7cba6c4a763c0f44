"""Abstract memory: objects are stacks of layers (constant-offset cells, symbolic-offset writes, range copies/fills)
over a base content; reads resolve against the layers, partitioning the state where an alias is undecided."""
from .dom import *
from .ir import P, F, Poison, Agg
from .ops import neg, fork_lin, is_imp
from math import gcd


class Obj:
    __slots__ = ('size', 'layers', 'name', 'kind', 'owner')

    def __init__(self, size, layers, name, kind, owner):
        self.size = size        # Lin
        self.layers = layers
        self.name = name
        self.kind = kind
        self.owner = owner


ANYB = {}   # (tag, Lin) -> symbol


def any_byte(st, tag, off):
    off = st.store.norm(off)
    k = (tag, off)
    s = ANYB.get(k)
    if s is None:
        # congruence: an offset equal in this state to one read earlier
        if off.t:
            for (t2, o2), s2 in ANYB.items():
                if t2 == tag:
                    d = ladd(off, o2, -1)
                    if st.store.entails(d) and st.store.entails(neg(d)):
                        return V(8, lsym(s2))
        else:
            for (t2, o2), s2 in ANYB.items():
                if t2 == tag and o2.t:
                    d = st.store.norm(ladd(off, o2, -1))
                    if not d.t and d.c == 0:
                        return V(8, lsym(s2))
        s = new_sym('%s[%r]' % (tag, off), 0, 255, imp=str(tag).startswith('~'))
        sym_bits(s)
        ANYB[k] = s
    return V(8, lsym(s))


def compose(st, bs):
    if len(bs) > 1 and any(isinstance(b, Poison) for b in bs) and any(isinstance(b, V) for b in bs):
        return Poison('uninitialised memory', any(isinstance(b, Poison) and b.imp for b in bs), tuple(bs))
    for b in bs:
        if isinstance(b, Poison):
            return b
        if not isinstance(b, V):
            return Poison('partial pointer', True)
    if len(bs) == 1:
        return bs[0]
    w = 8 * len(bs)
    cs = [st.store.const(b) for b in bs]
    if all(c is not None for c in cs):
        return C(w, sum(c << (8 * i) for i, c in enumerate(cs)))
    bits = ()
    for b in bs:
        bits += st.store.bits(b)
    return V(w, None, bits)


def byte_of(st, v, j):
    if isinstance(v, Poison):
        return v.bytes[j] if v.bytes else v
    if not isinstance(v, V):
        return Poison('byte of a pointer', True)
    c = st.store.const(v)
    if c is not None:
        return C(8, (c >> (8 * j)) & 255)
    b = st.store.bits(v)
    b = b + (0,) * (-len(b) % 8)
    return V(8, None, b[8 * j:8 * j + 8])


def slice_of(st, v, j, n, size):
    if j == 0 and n == size:
        return v
    return compose(st, [byte_of(st, v, j + k) for k in range(n)])


def read(st, oid, off, n):
    obj = st.mem[oid]
    return readl(st, obj.layers, len(obj.layers) - 1, st.store.norm(off), n)


def readl(st, layers, i, off, n):
    S = st.store
    while True:
        ly = layers[i]
        k = ly[0]
        if k == 'c':
            cells = ly[1]
            if not off.t:
                o = off.c
                h = cells.get(o)
                if h is not None and h[0] == n:
                    return [(st, h[1])]
                cov = [None] * n
                hit = False
                for p in range(o - 15, o + n):
                    h = cells.get(p)
                    if h is not None and p + h[0] > o:
                        hit = True
                        for q in range(max(p, o), min(p + h[0], o + n)):
                            cov[q - o] = (p, h)
                if not hit:
                    i -= 1
                    continue
                # all bytes from one cell
                if all(c is not None and c[0] == cov[0][0] for c in cov):
                    p, h = cov[0]
                    return [(st, slice_of(st, h[1], o - p, n, h[0]))]
                return read_bytes(st, layers, i, off, n, cov)
            lo, hi = S.lrng(off)
            g = 0
            for _, v in off.t:
                g = gcd(g, v)
            cand = [p for p, h in cells.items() if p + h[0] > lo and p < hi + n]
            if g > 1:
                cand = [p for p in cand if any((q - off.c) % g == 0 for q in range(p - n + 1, p + cells[p][0]))]
            if not cand:
                i -= 1
                continue
            # tighten the range through the polyhedron
            hi2 = S.upper(off)
            lo2 = -S.upper(neg(off))
            cand = [p for p in cand if p + cells[p][0] > lo2 and p < hi2 + n]
            if not cand:
                i -= 1
                continue
            start = lo2 + (off.c - lo2) % g if g else lo2
            pos = range(start, hi2 + 1, g or 1)
            if len(pos) <= 4096:
                vals = []
                for p in pos:
                    h = cells.get(p)
                    if h is None or h[0] != n:
                        vals = None
                        break
                    vals.append(h[1])
                if vals:
                    k0 = vals[0].key()
                    if all(v.key() == k0 for v in vals):
                        return [(st, vals[0])]
            if len(pos) <= 24:
                out = []
                live = []
                for p in pos:
                    m = st.copy()
                    if m.store.add_eq(Lin(off.c - p, off.t)) and m.store.feasible():
                        live.append((m, p))
                for m, p in live:
                    if len(live) > 1:
                        m.nfork += 1
                    out.extend(readl(m, layers, i, Lin(p), n))
                return out
            if len(cand) <= 10 and all(cells[p][0] == n for p in cand) and (n == 1 or (g % n == 0 and all((p - off.c) % n == 0 for p in cand))):
                cand = sorted(p for p in cand if lo2 <= p <= hi2)
                out = []
                a = lo2
                gaps = []
                for p in cand:
                    gaps.append((a, p - n)); a = p + n
                gaps.append((a, hi2))
                for a, b in gaps:
                    if a <= b:
                        m = st.copy()
                        if m.store.add_ge(Lin(off.c - a, off.t)) and m.store.add_ge(Lin(b - off.c, neg(off).t)) and m.store.feasible():
                            m.nfork += 1
                            out.extend(readl(m, layers, i - 1, m.store.norm(off), n))
                for p in cand:
                    m = st.copy()
                    if m.store.add_eq(Lin(off.c - p, off.t)) and m.store.feasible():
                        m.nfork += 1
                        out.append((m, cells[p][1]))
                return out
            return [(st, Poison('symbolic read over many cells', True))]
        if k == 'w':
            _, o2, n2, val = ly
            d = S.norm(ladd(off, o2, -1))
            if not d.t:
                if d.c >= n2 or d.c <= -n:
                    i -= 1
                    continue
                if d.c >= 0 and d.c + n <= n2:
                    return [(st, slice_of(st, val, d.c, n, n2))]
                return read_bytes(st, layers, i, off, n, None)
            if S.entails(Lin(d.c - n2, d.t)) or S.entails(Lin(-d.c - n, neg(d).t)):
                i -= 1
                continue
            if n == n2:
                step = n
                g = d.c
                for _, v in d.t:
                    g = gcd(g, v)
                if n > 1 and g % n:
                    return read_bytes(st, layers, i, off, n, None)
                out = []
                m = st.copy()
                if m.store.add_eq(d) and m.store.feasible():
                    out.append((m, val))
                for c in (Lin(d.c - step, d.t), Lin(-d.c - step, neg(d).t)):
                    m = st.copy()
                    if m.store.add_ge(c) and m.store.feasible():
                        out.extend(readl(m, layers, i - 1, m.store.norm(off), n))
                if len(out) > 1:
                    for m, _ in out:
                        m.nfork += 1
                return out
            return read_bytes(st, layers, i, off, n, None)
        if k in ('copy', 'fill', 'any'):
            dst, ln = ly[1], ly[2]
            if dst is None:                 # whole object
                e1 = off
            else:
                e1 = S.norm(ladd(off, dst, -1))
                left = Lin(-e1.c - n, neg(e1).t)                    # e1 + n <= 0
                right = ladd(e1, ln, -1)                            # e1 >= len
                if S.entails(left) or S.entails(right):
                    i -= 1
                    continue
                inside = [e1, ladd(Lin(-e1.c - n, neg(e1).t), ln)]
                if not (S.entails(inside[0]) and S.entails(inside[1])):
                    if n > 1:
                        return read_bytes(st, layers, i, off, n, None)
                    out = []
                    for m, w in fork_lin(st, [inside, [left], [right]]):
                        out.extend(readl(m, layers, i if w == 0 else i - 1, m.store.norm(off), n))
                    return out
            if k == 'copy':
                return readl(st, ly[3], len(ly[3]) - 1, S.norm(ladd(e1, ly[4])), n)
            if k == 'fill':
                b = ly[3]
                return [(st, compose(st, [b] * n))]
            return [(st, compose(st, [any_byte(st, ly[3], Lin(off.c + j, off.t)) for j in range(n)]))]
        if k == 'zero':
            return [(st, C(8 * n, 0))]
        if k == 'uninit':
            return [(st, Poison('uninitialised memory'))]
        if k == 'unknown':
            return [(st, Poison('unknown memory', True))]
        raise KeyError(k)


def read_bytes(st, layers, i, off, n, cov):
    """Read byte by byte (mixed sources)."""
    if n == 1:
        return [(st, Poison('overlapping symbolic access', True))]
    outs = [(st, [])]
    for j in range(n):
        nxt = []
        for s, acc in outs:
            if cov is not None and cov[j] is not None:
                p, h = cov[j]
                nxt.append((s, acc + [byte_of(s, h[1], off.c + j - p)]))
            else:
                for s2, v in readl(s, layers, i, s.store.norm(Lin(off.c + j, off.t)), 1):
                    nxt.append((s2, acc + [v]))
        outs = nxt
    return [(s, compose(s, acc)) for s, acc in outs]


def own(st, oid):
    o = st.mem[oid]
    if o.owner is not st.own:
        ls = list(o.layers)
        if ls and ls[-1][0] == 'c':
            ls[-1] = ('c', dict(ls[-1][1]))
        o = Obj(o.size, ls, o.name, o.kind, st.own)
        st.mem[oid] = o
    return o


def write(st, oid, off, n, val):
    o = own(st, oid)
    off = st.store.norm(off)
    if off.t:
        o.layers.append(('w', off, n, val))
        if len(o.layers) > 200:
            o.layers[:] = [('unknown',)]
            st.imp = st.imp or 'too many symbolic writes'
        return
    if o.layers[-1][0] != 'c':
        o.layers.append(('c', {}))
    cells = o.layers[-1][1]
    put_cell(st, cells, off.c, n, val)


def put_cell(st, cells, a, n, val):
    h = cells.get(a)
    if h is not None and h[0] == n:
        cells[a] = (n, val)
        return
    for p in range(a - 15, a + n):
        h = cells.get(p)
        if h is not None and p + h[0] > a:
            del cells[p]
            for q in range(p, p + h[0]):
                if q < a or q >= a + n:
                    cells[q] = (1, byte_of(st, h[1], q - p))
    cells[a] = (n, val)


def copy_range(st, dst, src, ln):
    """memcpy/memmove of ln bytes (Lin) between pointers already bounds-checked."""
    S = st.store
    ln = S.norm(ln)
    if not ln.t and ln.c == 0:
        return
    so = st.mem[src.o]
    soff, doff = S.norm(src.off), S.norm(dst.off)
    if not ln.t and not soff.t and not doff.t:
        a, b = soff.c, soff.c + ln.c
        if all(l[0] == 'c' for l in so.layers[1:]) and so.layers[0][0] in ('uninit', 'zero', 'c') and ln.c <= 65536:
            new = {}
            for l in so.layers:
                if l[0] == 'c':
                    for p, (m, v) in l[1].items():
                        if p >= a and p + m <= b:
                            put_cell(st, new, p, m, v)
                        elif p + m > a and p < b:
                            for q in range(max(p, a), min(p + m, b)):
                                put_cell(st, new, q, 1, byte_of(st, v, q - p))
            base = so.layers[0][0]
            o = own(st, dst.o)
            if base == 'zero':
                o.layers.append(('fill', doff, ln, C(8, 0)))
            elif sum(m for m, _ in new.values()) < ln.c:
                # uncovered bytes are uninitialised
                if base == 'uninit':
                    o.layers.append(('copy', doff, ln, [('uninit',)], Lin(0)))
            if o.layers[-1][0] != 'c':
                o.layers.append(('c', {}))
            cells = o.layers[-1][1]
            for p, (m, v) in new.items():
                put_cell(st, cells, p - a + doff.c, m, v)
            return
    so.owner = None         # freeze: the snapshot is shared
    snap = so.layers
    o = own(st, dst.o)
    o.layers.append(('copy', doff, ln, snap, soff))
    if len(o.layers) > 200:
        o.layers[:] = [('unknown',)]
        st.imp = st.imp or 'too many layers'


def fill_range(st, dst, byte, ln):
    S = st.store
    ln = S.norm(ln)
    doff = S.norm(dst.off)
    if not ln.t and ln.c == 0:
        return
    o = own(st, dst.o)
    if not ln.t and not doff.t and ln.c <= 64:
        for k in range(ln.c):
            write(st, dst.o, Lin(doff.c + k), 1, byte)
        return
    if not ln.t and not doff.t:
        # drop covered cells so that the layer stack stays shallow
        if doff.c == 0 and not o.size.t and ln.c == o.size.c:
            o.layers[:] = [('fill', doff, ln, byte)]
            o.layers.insert(0, ('uninit',))
            return
    o.layers.append(('fill', doff, ln, byte))
