"""Transfer functions of the numeric domain. Every function returns a list of (state, value): a partition of the
incoming abstract state."""
import struct
from .dom import *
from .ir import P, F, Poison, Agg
from . import dom


def mask(w):
    return (1 << w) - 1


def fork_lin(st, alts):
    """alts: list of lists of Lins (each >= 0). Yields the feasible alternatives as [(state, index)]."""
    out = []
    for i, cs in enumerate(alts):
        n = st.copy()
        ok = True
        for c in cs:
            if n.store.entails(Lin(-1 - c.c, tuple((s, -v) for s, v in c.t))) or not n.store.add_ge(c):
                ok = False
                break
        if ok:
            out.append((n, i))
    if len(out) == 1:
        pass
    else:
        for n, _ in out:
            n.nfork += 1
    return out


def neg(l):
    return Lin(-l.c, tuple((s, -v) for s, v in l.t))


def is_imp(store, v):
    if isinstance(v, Poison):
        return v.imp
    if v.bits is not None:
        for b in v.bits:
            if b > 1:
                for a in form_atoms(b):
                    if ATOMS[a][2]:
                        return True
        return False
    return any(SYMS[s].imp for s, _ in v.lin.t)


def note_imp(states, a, b, base):
    if len(states) > 1 and (is_imp(base, a) or is_imp(base, b)):
        for s, _ in states:
            s.imp = s.imp or 'decision on an imprecise value'
    return states


def eqfork(st, a, b):
    S = st.store
    ca, cb = S.const(a), S.const(b)
    if ca is not None and cb is not None:
        return [(st, ca == cb)]
    if a.lin is not None and b.lin is not None:
        d = S.norm(ladd(a.lin, b.lin, -1))
        if not d.t:
            return [(st, d.c == 0)]
        lo, hi = S.lrng(d)
        if lo > 0 or hi < 0:
            return [(st, False)]
        ge = S.entails(d)
        le = S.entails(neg(d))
        if ge and le:
            return [(st, True)]
        if S.entails(Lin(d.c - 1, d.t)) or S.entails(Lin(-d.c - 1, neg(d).t)):
            return [(st, False)]
        single = (ca is not None or cb is not None) and len(d.t) == 1 and SYMS[d.t[0][0]].bits is not None
        if ge or le or not single:
            out = []
            n = st.copy()
            if n.store.add_eq(d) and n.store.feasible():
                out.append((n, True))
            if not le:
                n = st.copy()
                if n.store.add_ge(Lin(d.c - 1, d.t)) and n.store.feasible():
                    out.append((n, False))
            if not ge:
                n = st.copy()
                if n.store.add_ge(Lin(-d.c - 1, neg(d).t)) and n.store.feasible():
                    out.append((n, False))
            if len(out) > 1:
                for n, _ in out:
                    n.nfork += 1
            return note_imp(out, a, b, S)
    A, B = S.bits(a), S.bits(b)
    nz = set()
    for x, y in zip(A, B):
        f = S.bred(x ^ y)
        if f == 1:
            return [(st, False)]
        if f:
            nz.add(f)
    if not nz:
        return [(st, True)]
    la = S.lin(a) if (a.lin is not None or ca is not None or len(A) <= 64) else None
    out = []
    n = st.copy()
    ok = True
    for f in nz:
        if not n.store.add_bit(f, 0):
            ok = False
            break
    if ok:
        out.append((n, True))
    n = st.copy()
    if n.store.add_clause(nz):
        ok = True
        if (ca is None) != (cb is None) and n.store.cons:
            d = ladd(n.store.lin(a), n.store.lin(b), -1)
            if len(d.t) > 1:
                if n.store.entails(d):
                    ok = n.store.add_ge(Lin(d.c - 1, d.t))
                elif n.store.entails(neg(d)):
                    ok = n.store.add_ge(Lin(-d.c - 1, neg(d).t))
        if ok:
            out.append((n, False))
    if len(out) > 1:
        for n, _ in out:
            n.nfork += 1
    return note_imp(out, a, b, S)


def ltfork(st, a, b):
    """unsigned a < b"""
    S = st.store
    ca, cb = S.const(a), S.const(b)
    if ca is not None and cb is not None:
        return [(st, ca < cb)]
    if cb == 0:
        return [(st, False)]
    if ca == mask(a.w):
        return [(st, False)]
    forms = None
    if a.lin is None and cb is not None and cb & (cb - 1) == 0:
        k = cb.bit_length() - 1
        forms = [f for f in S.bits(a)[k:] if f]
        below = True
    elif b.lin is None and ca is not None and (ca + 1) & ca == 0:
        k = ca.bit_length()
        forms = [f for f in S.bits(b)[k:] if f]
        below = False
    if forms is not None:
        if not forms:
            return [(st, below)]
        if 1 in forms:
            return [(st, not below)]
        out = []
        n = st.copy()
        ok = True
        for f in forms:
            if not n.store.add_bit(f, 0):
                ok = False
                break
        if ok:
            out.append((n, below))
        n = st.copy()
        if n.store.add_clause(forms):
            v = a if below else b
            l = n.store.lin(v)
            if len(l.t) < 2 or n.store.add_ge(Lin(l.c - (1 << k), l.t)):
                out.append((n, not below))
        if len(out) > 1:
            for n, _ in out:
                n.nfork += 1
        return note_imp(out, a, b, S)
    d = ladd(S.lin(b), S.lin(a), -1)
    d = Lin(d.c - 1, d.t)               # b - a - 1 >= 0
    if S.entails(d):
        return [(st, True)]
    nd = Lin(-1 - d.c, neg(d).t)
    if S.entails(nd):
        return [(st, False)]
    out = []
    n = st.copy()
    if n.store.add_ge(d):
        out.append((n, True))
    n = st.copy()
    if n.store.add_ge(nd):
        out.append((n, False))
    if len(out) > 1:
        for n, _ in out:
            n.nfork += 1
    return note_imp(out, a, b, S)


def bitfork(st, f):
    """fork on a single bit form; yields (state, 0/1)"""
    f = st.store.bred(f)
    if f < 2:
        return [(st, f)]
    out = []
    for v in (0, 1):
        n = st.copy()
        if n.store.add_bit(f, v):
            n.nfork += 1
            out.append((n, v))
    if len(out) == 1:
        out[0][0].nfork -= 1
    elif any(ATOMS[a][2] for a in form_atoms(f)):
        for n, _ in out:
            n.imp = n.imp or 'decision on an imprecise bit'
    return out


def sltfork(st, a, b):
    out = []
    S = st.store
    w = a.w
    sb = lambda s, v: s.store.bits(v)[w - 1]
    # cheap: non-negative by range
    def nonneg(s, v):
        if v.lin is not None:
            return s.store.lrng(s.store.norm(v.lin))[1] < (1 << (w - 1))
        return s.store.bred(v.bits[w - 1]) == 0
    if nonneg(st, a) and nonneg(st, b):
        return ltfork(st, a, b)
    for s1, x in bitfork(st, sb(st, a)):
        for s2, y in bitfork(s1, sb(s1, b)):
            if x != y:
                out.append((s2, bool(x)))
            else:
                out.extend(ltfork(s2, a, b))
    return out


def icmp(st, pred, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        p = a if isinstance(a, Poison) else b
        return [(st, p)]
    if isinstance(a, (P, F)) or isinstance(b, (P, F)):
        return ptrcmp(st, pred, a, b)
    if pred == 'eq': r = eqfork(st, a, b); inv = False
    elif pred == 'ne': r = eqfork(st, a, b); inv = True
    elif pred == 'ult': r = ltfork(st, a, b); inv = False
    elif pred == 'ugt': r = ltfork(st, b, a); inv = False
    elif pred == 'uge': r = ltfork(st, a, b); inv = True
    elif pred == 'ule': r = ltfork(st, b, a); inv = True
    elif pred == 'slt': r = sltfork(st, a, b); inv = False
    elif pred == 'sgt': r = sltfork(st, b, a); inv = False
    elif pred == 'sge': r = sltfork(st, a, b); inv = True
    elif pred == 'sle': r = sltfork(st, b, a); inv = True
    else:
        raise KeyError(pred)
    return [(s, C(1, int(bool(v) != inv))) for s, v in r]


def ptrcmp(st, pred, a, b):
    if isinstance(a, F) or isinstance(b, F):
        e = isinstance(a, F) and isinstance(b, F) and a.name == b.name
        return [(st, C(1, int(e == (pred == 'eq'))))]
    if not isinstance(a, P) or not isinstance(b, P):
        return [(st, Poison('pointer/integer comparison', True))]
    if a.o != b.o:
        if pred in ('eq', 'ne'):
            return [(st, C(1, int(pred == 'ne')))]
        return [(st, Poison('ordering of unrelated pointers', True))]
    va, vb = V(64, st.store.norm(a.off)), V(64, st.store.norm(b.off))
    return icmp(st, pred, va, vb)


def fcmp(st, pred, a, b):
    if isinstance(a, Poison) or isinstance(b, Poison):
        return [(st, a if isinstance(a, Poison) else b)]
    S = st.store
    ca, cb = S.const(a), S.const(b)
    if ca is not None and cb is None:
        a, b, ca, cb = b, a, cb, ca
        pred = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(pred, pred)
    if cb is not None and cb & mask(a.w - 1) == 0 and a.w == 64 and a.lin in FPEXT:
        a = FPEXT[a.lin]
    w = a.w
    if cb is not None and cb & mask(w - 1) == 0 and pred in ('oeq', 'une', 'ueq', 'one'):
        A = V(w - 1, None, S.bits(a)[:w - 1])
        if pred in ('oeq', 'une'):
            return [(s, C(1, int(v == (pred == 'oeq')))) for s, v in eqfork(st, A, C(w - 1, 0))]
    if pred in ('true', 'false'):
        return [(st, C(1, int(pred == 'true')))]
    out = []
    for s, un in _nan(st, a):
        for s, un2 in ([(s, True)] if un else _nan(s, b)):
            if un2:
                out.append((s, C(1, int(pred[0] == 'u'))))
                continue
            for s, r in _order(s, a, b):
                out.append((s, C(1, int(r in FP[pred]))))
    return out


FP = dict(ord='lge', uno='', oeq='e', ueq='e', one='lg', une='lg', olt='l', ult='l', ogt='g', ugt='g', ole='le', ule='le', oge='ge', uge='ge')


def _nan(st, a):
    """[(state, is it not a number)]"""
    m = {16: 10, 32: 23, 64: 52}[a.w]
    bits = st.store.bits(a)
    out = []
    for s, full in eqfork(st, V(a.w - 1 - m, None, bits[m:a.w - 1]), C(a.w - 1 - m, mask(a.w - 1 - m))):
        if not full:
            out.append((s, False))
        else:
            out += [(t, not z) for t, z in eqfork(s, V(m, None, bits[:m]), C(m, 0))]
    return out


def _order(st, a, b):
    """[(state, 'l', 'e' or 'g')] of two numbers; opaque but for identical operands, the same answer whenever asked again"""
    x, y = st.store.bits(a), st.store.bits(b)
    if x == y:
        return [(st, 'e')]
    flip = repr(x) > repr(y)
    k = ('order', y, x) if flip else ('order', x, y)
    f = OPQ.get(k)
    if f is None:
        f = OPQ[k] = (new_atom(None, 0, False, 'feq'), new_atom(None, 0, False, 'flt'))
    out = []
    for s, v in bitfork(st, f[0]):
        if v:
            out.append((s, 'e'))
        else:
            out += [(t, 'l' if bool(l) != flip else 'g') for t, l in bitfork(s, f[1])]
    return out


def opaque(st, op, w, *vs):
    k = (op, w) + tuple(st.store.bits(v) for v in vs)
    r = OPQ.get(k)
    if r is None:
        r = OPQ[k] = V(w, lsym(new_sym('%s%d' % (op, len(SYMS)), 0, mask(w), True)))
    return r


def binop(st, op, a, b, w):
    if isinstance(a, Poison) or isinstance(b, Poison):
        p = a if isinstance(a, Poison) else b
        if op == 'and' and (isinstance(a, V) and st.store.const(a) == 0 or isinstance(b, V) and st.store.const(b) == 0):
            return [(st, C(w, 0))]
        if op == 'lshr' and isinstance(a, Poison) and a.bytes and isinstance(b, V):
            k = st.store.const(b)
            if k is not None and k % 8 == 0 and k < w:
                from .mem import compose
                return [(st, compose(st, list(a.bytes[k // 8:]) + [C(8, 0)] * (k // 8)))]
        return [(st, p)]
    if isinstance(a, P) or isinstance(b, P):
        if op == 'sub' and isinstance(a, P) and isinstance(b, P) and a.o == b.o:
            return binop(st, 'sub', V(64, a.off), V(64, b.off), 64)
        return [(st, Poison('pointer arithmetic', True))]
    S = st.store
    ca, cb = S.const(a), S.const(b)
    M = mask(w)
    if ca is not None and cb is not None:
        if op == 'add': r = ca + cb
        elif op == 'sub': r = ca - cb
        elif op == 'mul': r = ca * cb
        elif op == 'and': r = ca & cb
        elif op == 'or': r = ca | cb
        elif op == 'xor': r = ca ^ cb
        elif op == 'shl': r = ca << cb if cb < w else 0
        elif op == 'lshr': r = ca >> cb if cb < w else 0
        elif op == 'ashr':
            x = ca - (1 << w) if ca >> (w - 1) else ca
            r = x >> min(cb, w - 1)
        elif op in ('udiv', 'urem'):
            if cb == 0:
                return [(st, Poison('division by zero'))]
            r = ca // cb if op == 'udiv' else ca % cb
        elif op in ('sdiv', 'srem'):
            x = ca - (1 << w) if ca >> (w - 1) else ca
            y = cb - (1 << w) if cb >> (w - 1) else cb
            if y == 0:
                return [(st, Poison('division by zero'))]
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            r = q if op == 'sdiv' else x - q * y
        else:
            return [(st, opaque(st, op, w, a, b))]
        return [(st, C(w, r & M))]
    if op == 'add':
        if ca == 0: return [(st, b)]
        if cb == 0: return [(st, a)]
        if a.lin is None and b.lin is None or (a.lin is None and cb is not None) or (b.lin is None and ca is not None):
            A, B = S.bits(a), S.bits(b)
            if all(x == 0 or y == 0 for x, y in zip(A, B)):
                return [(st, V(w, None, tuple(x | y for x, y in zip(A, B))))]
        l = ladd(S.lin(a), S.lin(b))
        return wrap(st, l, w, hi=1)
    if op == 'sub':
        if cb == 0: return [(st, a)]
        if ca == 0:
            B = S.bits(b) if b.lin is None or S.lrng(S.norm(b.lin))[1] <= 1 else None
            if B is not None and all(x == 0 for x in B[1:]):
                return [(st, V(w, None, (B[0],) * w))]
        if b.lin is not None and a.lin is not None and a.lin == b.lin:
            return [(st, C(w, 0))]
        l = ladd(S.lin(a), S.lin(b), -1)
        return wrap(st, l, w, lo=-1)
    if op == 'mul':
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is None:
            return [(st, opaque(st, op, w, *sorted((a, b), key=lambda v: repr(v.key()))))]
        if cb == 0: return [(st, C(w, 0))]
        if cb == 1: return [(st, a)]
        l = S.lin(a)
        sc = lscale(l, cb)
        if S.lrng(sc)[1] <= M or S.entails(Lin(M - sc.c, neg(sc).t)):
            return [(st, V(w, sc))]
        if cb & (cb - 1) == 0:
            return binop(st, 'shl', a, C(w, cb.bit_length() - 1), w)
        hi = S.lrng(sc)[1] >> w
        if hi <= 4:
            return wrap(st, sc, w, hi=hi)
        return [(st, opaque(st, op, w, a, b))]
    if op in ('shl', 'lshr', 'ashr'):
        if cb is None:
            lo, hi = S.lrng(S.lin(b))
            out = []
            if hi - lo <= 80:
                for k in range(lo, hi + 1):
                    n = st.copy()
                    if n.store.add_eq(Lin(S.lin(b).c - k, S.lin(b).t)):
                        n.nfork += 1
                        out.extend(binop(n, op, a, C(w, k), w))
                return out
            return [(st, opaque(st, op, w, a, b))]
        if cb == 0: return [(st, a)]
        if cb >= w:
            return [(st, Poison('shift amount >= width'))]
        if op == 'shl' and a.lin is not None:
            sc = lscale(S.norm(a.lin), 1 << cb)
            if S.lrng(sc)[1] <= M:
                return [(st, V(w, sc))]
        A = S.bits(a)
        if op == 'shl':
            return [(st, V(w, None, (0,) * cb + A[:w - cb]))]
        f = A[w - 1] if op == 'ashr' else 0
        return [(st, V(w, None, A[cb:] + (f,) * cb))]
    if op == 'and':
        if ca is not None:
            a, b, ca, cb = b, a, cb, ca
        if cb is not None:
            if cb == 0: return [(st, C(w, 0))]
            if cb == M: return [(st, a)]
            if a.lin is not None and cb & (cb + 1) == 0 and S.lrng(S.norm(a.lin))[1] <= cb:
                return [(st, a)]
        A, B = S.bits(a), S.bits(b)
        return [(st, V(w, None, tuple(fand(S, x, y) for x, y in zip(A, B))))]
    if op == 'or':
        if ca == 0: return [(st, b)]
        if cb == 0: return [(st, a)]
        A, B = S.bits(a), S.bits(b)
        return [(st, V(w, None, tuple(x | y if x == 0 or y == 0 else (1 if x == 1 or y == 1 else x ^ y ^ fand(S, x, y)) for x, y in zip(A, B))))]
    if op == 'xor':
        if ca == 0: return [(st, b)]
        if cb == 0: return [(st, a)]
        A, B = S.bits(a), S.bits(b)
        return [(st, V(w, None, tuple(S.bred(x ^ y) for x, y in zip(A, B))))]
    if op in ('udiv', 'urem') and cb:
        l = S.lin(a)
        if cb & (cb - 1) == 0:
            k = cb.bit_length() - 1
            if op == 'udiv':
                return binop(st, 'lshr', a, C(w, k), w)
            return binop(st, 'and', a, C(w, cb - 1), w)
        k = ('udiv', l, cb)
        q = OPQ.get(k)
        if q is None:
            q = OPQ[k] = new_sym('(%r)/%d' % (l, cb), 0, M // cb)
        r = ladd(l, lsym(q), -cb)
        n = st.copy()
        if not (n.store.add_ge(r) and n.store.add_ge(Lin(cb - 1 - r.c, neg(r).t))):
            return []
        return [(n, V(w, lsym(q) if op == 'udiv' else r))]
    if op in ('sdiv', 'srem') and cb and cb < (1 << (w - 1)):
        out = []
        for s, v in bitfork(st, S.bits(a)[w - 1]):
            if v == 0:
                out.extend(binop(s, 'udiv' if op == 'sdiv' else 'urem', a, b, w))
            else:
                out.append((s, opaque(s, op, w, a, b)))
        return out
    return [(st, opaque(st, op, w, a, b))]


def fand(S, x, y):
    if x == 0 or y == 0: return 0
    if x == 1: return y
    if y == 1: return x
    if x == y: return x
    if x ^ y == 1: return 0
    k = ('and', min(x, y), max(x, y))
    r = OPQ.get(k)
    if r is None:
        r = OPQ[k] = new_atom(None, 0, True, 'and')
    return S.bred(r)


def wrap(st, l, w, lo=0, hi=0):
    """Partition on the number of wrap-arounds of an exact sum."""
    S = st.store
    M = 1 << w
    a, b = S.lrng(l)
    if a >= 0 and b < M:
        return [(st, V(w, l))]
    if (a >= 0 or S.entails(l)) and (b < M or S.entails(Lin(M - 1 - l.c, neg(l).t))):
        return [(st, V(w, l))]
    alts = []
    ks = list(range(lo, hi + 1))
    for k in ks:
        m = Lin(l.c - k * M, l.t)
        alts.append([m, Lin(M - 1 - m.c, neg(m).t)])
    return [(s, V(w, s.store.norm(Lin(l.c - ks[i] * M, l.t)))) for s, i in fork_lin(st, alts)]


def cast(st, op, v, w):
    if isinstance(v, Poison):
        if op == 'trunc' and v.bytes and w % 8 == 0:
            from .mem import compose
            return compose(st, list(v.bytes[:w // 8]))
        return v
    S = st.store
    if op == 'zext':
        if v.lin is not None:
            return V(w, v.lin)
        return V(w, None, v.bits + (0,) * (w - v.w))
    if op == 'sext':
        c = S.const(v)
        if c is not None:
            return C(w, c - (1 << v.w) if c >> (v.w - 1) else c)
        if v.lin is not None and S.lrng(S.norm(v.lin))[1] < (1 << (v.w - 1)):
            return V(w, v.lin)
        B = S.bits(v)
        return V(w, None, B + (B[-1],) * (w - v.w))
    if op == 'trunc':
        if v.lin is not None:
            l = S.norm(v.lin)
            if S.lrng(l)[1] <= mask(w) or (l.t and S.entails(Lin(mask(w) - l.c, neg(l).t))):
                return V(w, l)
        return V(w, None, S.bits(v)[:w])
    if op == 'bitcast':
        return v
    if op == 'fpext' and v.w == 32 and w == 64:
        c = S.const(v)
        if c is not None:
            return C(64, struct.unpack('<Q', struct.pack('<d', struct.unpack('<f', struct.pack('<I', c))[0]))[0])
        r = opaque(st, op, w, v)
        FPEXT[r.lin] = v
        return r
    return opaque(st, op, w, v)
