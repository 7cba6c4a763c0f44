"""Join and widening: locations that differ between states become fresh symbols, related by a finite family of
template constraints; constraints not preserved by every state are dropped, which makes the iteration converge."""
from .dom import *
from .ir import P, F, Agg, Poison
from .mem import Obj, read
from .ops import neg
from bisect import bisect_left, bisect_right

LOST = ('lost',)
_tag = [0]


def cell_values(st, oid, pos):
    """values of (off,size) positions of an object in one state; None when not uniquely readable"""
    out = []
    for off, n in pos:
        c = st.copy()
        r = read(c, oid, Lin(off), n)
        if len(r) == 1 and r[0][0] is c:
            out.append(r[0][1])
        else:
            out.append(Poison('join', True))
    return out


def same_layers(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if x[0] != y[0]:
            return False
        if x[0] == 'c':
            if x[1] is y[1]:
                continue
            if x[1].keys() != y[1].keys():
                return False
            for k in x[1]:
                p, q = x[1][k], y[1][k]
                if p is q:
                    continue
                if p[0] != q[0] or not same_val(p[1], q[1]):
                    return False
        elif x[0] == 'w':
            if x[1] != y[1] or x[2] != y[2] or not same_val(x[3], y[3]):
                return False
        elif x[0] == 'copy':
            if x[1] != y[1] or x[2] != y[2] or x[4] != y[4] or not same_layers(x[3], y[3]):
                return False
        elif x[0] == 'fill':
            if x[1] != y[1] or x[2] != y[2] or not same_val(x[3], y[3]):
                return False
        elif x != y:
            return False
    return True


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    return a.key() == b.key()


def common_form(stores, ds):
    """a linear form equal to ds[k] in every state k, or None"""
    tried = set()
    for c in ds[:4]:
        if c in tried or len(c.t) > 3:
            continue
        tried.add(c)
        for st, d in zip(stores, ds):
            e = st.norm(ladd(d, c, -1))
            if e.t:
                lo, hi = st.lrng(e)
                if lo > 0 or hi < 0 or not (st.entails(e) and st.entails(neg(e))):
                    break
            elif e.c:
                break
        else:
            return c
    return None


def generalize(I, states, hist=False, extra_terms=()):
    """-> (state, signature)"""
    base = states[0]
    n = base.copy()
    locs = []           # (loc id, width/None, [lin per state], setter)
    stores = [s.store for s in states]
    diff_objs = []

    def gen(loc, vals, setter, name):
        """merge one location"""
        v0 = vals[0]
        if all(same_val(v0, v) for v in vals[1:]):
            setter(v0)
            return
        if all(isinstance(v, V) for v in vals) and all(v.w == v0.w for v in vals):
            cs = [s.const(v) for s, v in zip(stores, vals)]
            if cs[0] is not None and all(c == cs[0] for c in cs):
                setter(C(v0.w, cs[0]))
                return
            lins = [s.lin(v) for s, v in zip(stores, vals)]
            imp = any(any(SYMS[q].imp for q, _ in l.t) for l in lins)
            locs.append((loc, v0.w, lins, (lambda sy, w=v0.w, f=setter: f(V(w, lsym(sy)))), name, imp))
            return
        if all(isinstance(v, P) for v in vals) and all(v.o == v0.o and v0.o is not None for v in vals):
            lins = [s.norm(v.off) for s, v in zip(stores, vals)]
            ext = v0.ext
            for v in vals[1:]:
                if ext is not None and (v.ext is None or v.ext != ext):
                    ext = None
            locs.append((loc, None, lins, (lambda sy, o=v0.o, e=ext, f=setter: f(P(o, lsym(sy), e))), name, False))
            return
        if all(isinstance(v, Agg) for v in vals) and all(len(v.items) == len(v0.items) for v in vals):
            items = [None] * len(v0.items)
            for k in range(len(items)):
                gen((loc, k), [v.items[k] for v in vals], (lambda x, k=k: items.__setitem__(k, x)), name)
            fin.append(lambda: setter(Agg(items)))
            return
        setter(Poison('join', True))

    fin = []
    # ghost
    g2 = {}
    n.ghost = g2
    for k in base.ghost:
        vs = [s.ghost.get(k) for s in states]
        if all(isinstance(v, V) for v in vs):
            gen(('g', k), vs, (lambda x, k=k: g2.__setitem__(k, x)), 'ghost.' + k)
        elif all(v == vs[0] for v in vs):
            g2[k] = vs[0]
        else:
            g2[k] = LOST
    # registers
    for d in range(len(n.frames)):
        frs = [s.frames[d] for s in states]
        if all(f is frs[0] for f in frs):
            continue
        nf = frs[0].copy()
        n.frames[d] = nf
        regs = {}
        nf.regs = regs
        for r in frs[0].regs:
            if all(r in f.regs for f in frs[1:]):
                gen(('r', d, r), [f.regs[r] for f in frs], (lambda x, r=r, regs=regs: regs.__setitem__(r, x)), 'r%d' % r)
    # memory
    for oid in list(base.mem):
        os_ = [s.mem.get(oid) for s in states]
        if any(o is None for o in os_):
            n.mem.pop(oid, None)
            continue
        if all(o is os_[0] or same_layers(o.layers, os_[0].layers) for o in os_[1:]):
            continue
        pos = {}
        for o in os_:
            for ly in o.layers:
                if ly[0] == 'c':
                    for p, (m, v) in ly[1].items():
                        pos[(p, m)] = 1
        pos = sorted(pos)
        # keep only non-overlapping positions, preferring larger cells
        keep = []
        end = -1
        for p, m in sorted(pos, key=lambda q: (q[0], -q[1])):
            if p >= end:
                keep.append((p, m)); end = p + m
        struct = all(all(l[0] == 'c' for l in o.layers[1:]) and o.layers[0] == os_[0].layers[0] for o in os_)
        cols = [cell_values(s, oid, keep) for s in states]
        cells = {}
        if struct:
            layers = [os_[0].layers[0], ('c', cells)]
        else:
            _tag[0] += 1
            layers = [('any', None, None, ('h%d' if hist else '~h%d') % _tag[0]), ('c', cells)]
            if not hist and len(keep) == 0:
                pass
        n.mem[oid] = Obj(os_[0].size, layers, os_[0].name, os_[0].kind, n.own)
        for j, (p, m) in enumerate(keep):
            vs = [c[j] for c in cols]
            if not struct and any(isinstance(v, Poison) for v in vs):
                continue
            def setc(x, p=p, m=m, cells=cells):
                if isinstance(x, Poison) and x.why == 'uninitialised memory':
                    return
                cells[p] = (m, x)
            gen((oid, p), vs, setc, '%s+%d' % (os_[0].name, p))
    # ---- store: keep what holds in all states
    S = Store()
    n.store = S
    common = []
    for s0 in base.store.bnd:
        lo = hi = None
        for st in stores:
            e = st.norm(lsym(s0))
            a, b = st.lrng(e)
            lo = a if lo is None else min(lo, a)
            hi = b if hi is None else max(hi, b)
        common.append(('b', s0, lo, hi))
    for b in base.store.bsub:
        f = (b << 1) ^ base.store.bsub[b]
        if all(st.bred(f) == 0 for st in stores[1:]):
            S.add_bit(f, 0, sync=False)
    for cl in base.store.clauses:
        ok = True
        for st in stores[1:]:
            fs = [st.bred(f) for f in cl]
            if 1 in fs:
                continue
            fz = frozenset(f for f in fs if f)
            if not any(c <= fz for c in (frozenset(st.bred(f) for f in c2) for c2 in st.clauses)):
                ok = False
                break
        if ok:
            S.add_clause(cl)
    for _, s0, lo, hi in common:
        S.add_ge(Lin(-lo, ((s0, 1),)))
        S.add_ge(Lin(hi, ((s0, -1),)))
    for s0, e in base.store.sub.items():
        d = ladd(lsym(s0), e, -1)
        for c in (d, neg(d)):
            if all(st.entails(c) for st in stores[1:]):
                S.add_ge(c)
    for c in base.store.cons:
        if all(st.entails(c) for st in stores[1:]):
            S.add_ge(c)
    # ---- fresh symbols and their template constraints
    sig = set()
    T = sorted(I.threshold_set())
    syms = []
    for loc, w, lins, setter, name, imp in locs:
        if w is None:
            lo0, hi0 = -(1 << 40), 1 << 40
        else:
            lo0, hi0 = 0, (1 << w) - 1
        sy = new_sym('%s#%d' % (name, len(SYMS)), lo0, hi0, imp)
        syms.append(sy)
        setter(sy)
        lo = min(st.lrng(l)[0] for st, l in zip(stores, lins))
        hi = max(st.lrng(l)[1] for st, l in zip(stores, lins))
        # threshold interval, refined through entailment in each state
        i = bisect_left(T, hi)
        lo_t = T[bisect_right(T, lo) - 1] if bisect_right(T, lo) else lo0
        hi_t = T[i] if i < len(T) else hi0
        while True:
            i = bisect_left(T, hi_t) - 1
            if i >= 0 and all(st.entails(Lin(T[i] - l.c, neg(l).t)) for st, l in zip(stores, lins)):
                hi_t = T[i]
            else:
                break
        while True:
            i = bisect_right(T, lo_t)
            if i < len(T) and T[i] <= hi_t and all(st.entails(Lin(l.c - T[i], l.t)) for st, l in zip(stores, lins)):
                lo_t = T[i]
            else:
                break
        lo_t = max(lo_t, lo0); hi_t = min(hi_t, hi0)
        S.add_ge(Lin(-lo_t, ((sy, 1),)))
        S.add_ge(Lin(hi_t, ((sy, -1),)))
        sig.add(('rng', loc, lo_t, hi_t))
    # terms: other fresh symbols and unchanged symbolic values
    terms = [(('L', locs[j][0]), lsym(syms[j]), locs[j][2]) for j in range(len(locs)) if locs[j][1] is None or locs[j][1] >= 16]
    seen = set()
    for oid, o in n.mem.items():
        if o.kind == 'const':
            continue
        for ly in o.layers:
            if ly[0] == 'c':
                for p, (m, v) in ly[1].items():
                    if isinstance(v, V) and v.w >= 16 and v.lin is not None and v.lin.t and v.lin not in seen:
                        if all(q in syms for q, _ in v.lin.t):
                            continue
                        seen.add(v.lin)
                        if len(seen) < 16:
                            terms.append((('U', v.lin), v.lin, [v.lin] * len(states)))
        if not o.size.t:
            continue
        if o.size not in seen:
            seen.add(o.size)
            terms.append((('U', o.size), o.size, [o.size] * len(states)))
    idx = [j for j in range(len(locs)) if locs[j][1] is None or locs[j][1] >= 16]
    for a in idx:
        la, va = lsym(syms[a]), locs[a][2]
        for tid, tl, tv in terms:
            if tid == ('L', locs[a][0]):
                continue
            ds = [st.norm(ladd(x, y, -1)) for st, x, y in zip(stores, va, tv)]
            f = common_form(stores, ds)
            if f is not None:
                S.add_eq(ladd(ladd(la, tl, -1), f, -1))
                sig.add(('diff', locs[a][0], tid))
                continue
            ss = [st.norm(ladd(x, y)) for st, x, y in zip(stores, va, tv)]
            f = common_form(stores, ss)
            if f is not None:
                S.add_eq(ladd(ladd(la, tl), f, -1))
                sig.add(('sum', locs[a][0], tid))
                continue
            # integer ratio
            if tid[0] == 'L' and len(states) > 1:
                dx = stores[1].norm(ladd(va[1], va[0], -1)); dy = stores[1].norm(ladd(tv[1], tv[0], -1))
                if not dx.t and not dy.t and dy.c and dx.c and dx.c % dy.c == 0 and abs(dx.c // dy.c) > 1:
                    r = dx.c // dy.c
                    es = [st.norm(ladd(x, y, -r)) for st, x, y in zip(stores, va, tv)]
                    if all(e == es[0] for e in es):
                        S.add_eq(ladd(ladd(la, tl, -r), es[0], -1))
                        sig.add(('ratio', locs[a][0], tid, r, es[0]))
                        continue
            if all(st.entails(d) for st, d in zip(stores, ds)):
                S.add_ge(ladd(la, tl, -1))
                sig.add(('ge', locs[a][0], tid))
            elif all(st.entails(neg(d)) for st, d in zip(stores, ds)):
                S.add_ge(ladd(tl, la, -1))
                sig.add(('le', locs[a][0], tid))
    # sums of two fresh symbols against a term
    if len(idx) <= 6:
        for x in range(len(idx)):
            for y in range(x + 1, len(idx)):
                a, b = idx[x], idx[y]
                for tid, tl, tv in terms:
                    if tid[0] != 'U':
                        continue
                    ds = [st.norm(ladd(t, ladd(p, q), -1)) for st, p, q, t in zip(stores, locs[a][2], locs[b][2], tv)]
                    if all(st.entails(d) for st, d in zip(stores, ds)):
                        S.add_ge(ladd(tl, ladd(lsym(syms[a]), lsym(syms[b])), -1))
                        sig.add(('sumle', locs[a][0], locs[b][0], tid))
    for f in fin:
        f()
    n.imp = next((s.imp for s in states if s.imp), None)
    n.nfork = max(s.nfork for s in states) + 1
    sig.add(('locs', frozenset(l[0] for l in locs)))
    return n, frozenset(sig)


def join(I, group):
    if len(group) == 1:
        return group
    n, _ = generalize(I, group)
    n.note('join of %d partitions' % len(group))
    return [n]


def widen_loop(I, group, stop):
    fr = group[0].frames[-1]
    header = fr.blk
    hist = I.is_history(fr.fn, header)
    I.quiet += 1
    try:
        if len(group) > 1:
            S, sig = generalize(I, group, hist)
        else:
            S, sig = group[0], None
        stable = False
        for it in range(14):
            s = S.copy()
            f = s.frames[-1]
            f.wid = f.wid | {header}
            f.loops.pop(header, None)
            backs = I.explore([s], (len(s.frames), f.fid, header))
            if not backs:
                stable = True
                break
            ref = S.copy()
            f2 = ref.frames[-1]
            G, gs = generalize(I, [ref] + backs, hist)
            if gs == sig:
                stable = True
                break
            S, sig = G, gs
    finally:
        I.quiet -= 1
    k = (fr.fn.dem, header)
    I.loop_info[k] = dict(function=fr.fn.dem, iterations=it + 1, stable=stable, constraints=len(sig or ()))
    if not stable:
        S.imp = S.imp or 'loop invariant did not stabilise'
    if not hist:
        S.imp = S.imp or 'loop of %s generalised' % fr.fn.dem[:80]
    f = S.frames[-1]
    f.wid = f.wid | {header}
    f.loops.pop(header, None)
    S.note('loop at %s generalised' % fr.fn.dem[:60])
    return [S]
