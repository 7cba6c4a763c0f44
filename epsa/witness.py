"""Emptiness test of an abstract state: tries to pick one concrete valuation of its symbols. An alarm is raised only for a
state that is shown non-empty."""
from .dom import *
from . import dom
from .mem import ANYB


class Out(Exception):
    pass


def congr(S):
    """Equal indices of one array hold equal bytes. False: contradiction."""
    by = {}
    for (tag, off), s in ANYB.items():
        by.setdefault(tag, []).append((off, s))
    for tag, l in by.items():
        seen = {}
        for off, s in l:
            o = S.norm(off)
            q = seen.get(o)
            if q is None:
                seen[o] = s
            elif not S.add_eq(ladd(lsym(s), lsym(q), -1)):
                return False
    return True


def relevant(S):
    out = []
    seen = set()

    def add(s):
        if s not in seen:
            seen.add(s)
            out.append(s)
    for (tag, off), s in ANYB.items():
        for q, _ in off.t:
            add(q)
    for c in S.cons:
        for s, _ in c.t:
            add(s)
    for s in S.bnd:
        add(s)
    for s, e in S.sub.items():
        for q, _ in e.t:
            add(q)
        add(s)
    for cl in S.clauses:
        for f in cl:
            for a in form_atoms(f):
                o = ATOMS[a][0]
                if o is not None:
                    add(o)
    for piv, e in S.bsub.items():
        for a in list(form_atoms(e)) + [piv.bit_length() - 1]:
            o = ATOMS[a][0]
            if o is not None:
                add(o)
    # symbols that share bits
    for s in list(out):
        B = SYMS[s].bits
        if B:
            for f in B:
                for a in form_atoms(f):
                    for q, _ in ATOMSYM.get(a, ()):
                        add(q)
    return out


def settle(S):
    """all symbols with bits agree with their bits"""
    for s in relevant(S):
        l = S.norm(lsym(s))
        if SYMS[s].bits is None:
            continue
        v = 0
        free = False
        for i, b in enumerate(SYMS[s].bits):
            b = S.bred(b)
            if b > 1:
                free = True
            else:
                v |= b << i
        if not free and not l.t and l.c != v:
            return False
    return True


def components(S):
    """independent groups of relevant symbols"""
    par = {}

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    def join(l):
        l = list(l)
        for x in l:
            par.setdefault(x, x)
        for x in l[1:]:
            par[find(x)] = find(l[0])
    rel = relevant(S)
    for s in rel:
        par.setdefault(s, s)
    for c in S.cons:
        join(s for s, _ in c.t)
    for s, e in S.sub.items():
        join([s] + [q for q, _ in e.t])
    atomown = {}
    for s in rel:
        for f in SYMS[s].bits or ():
            for a in form_atoms(f):
                if a in atomown:
                    join([s, atomown[a]])
                atomown[a] = s
    def atoms(fs):
        return [atomown[a] for f in fs for a in form_atoms(f) if a in atomown]
    for cl in S.clauses:
        join(atoms(cl))
    for piv, e in S.bsub.items():
        if e > 1:
            join(atoms([piv << 1, e]))
    by = {}
    for (tag, off), s in ANYB.items():
        by.setdefault(tag, []).append((S.norm(off), s))
    for tag, l in by.items():
        sy = [o for o, _ in l if o.t]
        if sy:
            # an index may meet any other one of this array
            for o in sy:
                for o2, s2 in l:
                    d = S.norm(ladd(o, o2, -1))
                    lo, hi = S.lrng(d)
                    if lo <= 0 <= hi:
                        join([q for q, _ in o.t] + [q for q, _ in o2.t] + [s2])
    out = {}
    for s in par:
        out.setdefault(find(s), []).append(s)
    order = {s: i for i, s in enumerate(rel)}
    return [sorted(g, key=lambda s: order.get(s, 1 << 30)) for g in out.values()]


def search(S, comp, budget):
    budget[0] -= 1
    if budget[0] < 0:
        raise Out()
    if not congr(S) or not S.check_clauses() or not S.feasible():
        return None
    for s in comp:
        l = S.norm(lsym(s))
        if l.t and s not in S.sub:
            break
    else:
        cs = set(comp)
        for s in comp:
            B = SYMS[s].bits
            l = S.norm(lsym(s))
            if B is not None and not l.t:
                for i, b in enumerate(B):
                    if S.bred(b) > 1:
                        if not S.add_bit(b, (l.c >> i) & 1):
                            return None
                        return search(S, comp, budget)
        for cl in S.clauses:
            if not any(q in cs for f in cl for a in form_atoms(f) for q, _ in ATOMSYM.get(a, ())):
                continue
            for f in cl:
                n = S.copy()
                if n.add_bit(f, 1):
                    r = search(n, comp, budget)
                    if r is not None:
                        return r
            return None
        return S if settle(S) else None
    hi = S.upper(lsym(s))
    lo = -S.upper(Lin(0, ((s, -1),)))
    if lo > hi:
        return None
    if hi - lo > 40:
        budget[1] = False           # not exhaustive
    tried = set()
    for v in range(lo, hi + 1) if hi - lo <= 40 else (lo, hi, lo + 1, (lo + hi) // 2, hi - 1, lo + 2, lo + 3, (lo + hi) // 3):
        if v in tried or not lo <= v <= hi:
            continue
        tried.add(v)
        n = S.copy()
        if n.add_eq(Lin(-v, ((s, 1),))):
            r = search(n, comp, budget)
            if r is not None:
                return r
    return None


def witness(S, budget=400):
    """(a store with all constrained symbols determined or None, whether None means certainly empty)"""
    S = S.copy()
    if not congr(S) or not S.check_clauses() or not S.feasible():
        return None, True
    sure = True
    for g in sorted(components(S), key=len):
        b = [budget, True]
        try:
            r = search(S.copy(), g, b)
        except Out:
            return None, False
        if r is None:
            if b[1]:
                return None, True
            return None, False
        S = r
    return S, False
