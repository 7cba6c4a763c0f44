"""Numeric abstract domain: a reduced product of
  * convex polyhedra over integer symbols (constraint lists, Fourier-Motzkin entailment, integer tightening),
  * per-bit GF(2)-affine forms over bit atoms with equational facts and 'at least one of' clauses.
Symbols and atoms denote fixed unknown values, so the tables that relate them are global to one analysis run.
"""
from math import gcd

INF = 1 << 200


class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(o) is Lin and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = []
        for k, v in self.t:
            n = SYMS[k].name
            s.append(n if v == 1 else '%d*%s' % (v, n))
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s)

    def is_const(self):
        return not self.t


def L(c):
    return Lin(c)


def lsym(s):
    return Lin(0, ((s, 1),))


def ladd(a, b, k=1):
    if k == 0:
        return a
    if not b.t:
        return Lin(a.c + k * b.c, a.t)
    d = dict(a.t)
    for s, v in b.t:
        n = d.get(s, 0) + k * v
        if n:
            d[s] = n
        else:
            d.pop(s, None)
    return Lin(a.c + k * b.c, tuple(sorted(d.items())))


def lscale(a, k):
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((s, v * k) for s, v in a.t))


class Sym:
    __slots__ = ('name', 'lo', 'hi', 'bits', 'imp')

    def __init__(self, name, lo, hi, bits=None, imp=False):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.bits = bits
        self.imp = imp


SYMS = []
ATOMS = []          # (owner symbol or None, bit index, imprecise flag, name)
LINSYM = {}         # Lin -> symbol carrying its bits
COREBITS = {}       # core bit tuple -> symbol
FPEXT = {}          # result of a float widening -> the value widened
OPQ = {}            # memo for opaque operations
ATOMSYM = {}        # atom -> [(symbol, position)]


def reset():
    SYMS.clear(); ATOMS.clear(); LINSYM.clear(); COREBITS.clear(); OPQ.clear(); FPEXT.clear(); ATOMSYM.clear()


def new_sym(name, lo, hi, imp=False, bits=None):
    SYMS.append(Sym(name, lo, hi, bits, imp))
    return len(SYMS) - 1


def new_atom(owner=None, idx=0, imp=False, name=''):
    ATOMS.append((owner, idx, imp, name))
    return 1 << len(ATOMS)      # bit 0 of a form is the constant


def sym_bits(s):
    """Bits of a symbol; allocates atoms on first use."""
    S = SYMS[s]
    if S.bits is None:
        n = max(S.hi, 0).bit_length()
        S.bits = tuple(new_atom(s, i, S.imp, S.name) for i in range(n))
        COREBITS.setdefault(S.bits, s)
        index_bits(s)
    return S.bits


def index_bits(s):
    """Which symbols contain an atom, for recognising their bits in other values."""
    for i, f in enumerate(SYMS[s].bits):
        for a in form_atoms(f):
            ATOMSYM.setdefault(a, []).append((s, i))


def form_atoms(f):
    f >>= 1
    while f:
        low = f & -f
        yield low.bit_length() - 1
        f ^= low


class V:
    """An abstract machine integer (or float bit pattern) of width w."""
    __slots__ = ('w', 'lin', 'bits')

    def __init__(self, w, lin=None, bits=None):
        self.w = w
        self.lin = lin
        self.bits = bits

    def const(self):
        if self.lin is not None:
            return self.lin.c if not self.lin.t else None
        r = 0
        for i, b in enumerate(self.bits):
            if b > 1:
                return None
            r |= b << i
        return r

    def __repr__(self):
        c = self.const()
        if c is not None:
            return 'i%d:%d' % (self.w, c)
        if self.lin is not None:
            return 'i%d<%r>' % (self.w, self.lin)
        return 'i%d[%s]' % (self.w, ','.join(fstr(b) for b in self.bits))

    def key(self):
        c = self.const()
        if c is not None:
            return (self.w, c)
        return (self.w, self.lin, self.bits)


def fstr(f):
    if f < 2:
        return str(f)
    s = []
    for a in form_atoms(f):
        o, i, imp, n = ATOMS[a]
        s.append('%s.%d' % (n or 'a%d' % a, i))
    if f & 1:
        s.append('1')
    return '^'.join(s)


_cc = {}


def C(w, v):
    k = (w, v)
    r = _cc.get(k)
    if r is None:
        r = V(w, Lin(v & ((1 << w) - 1)))
        _cc[k] = r
    return r


def const_bits(w, v):
    return tuple((v >> i) & 1 for i in range(w))


class Dead(Exception):
    pass


class Store:
    __slots__ = ('sub', 'bnd', 'cons', 'bsub', 'clauses', '_rc', '_feas')

    def __init__(self):
        self.sub = {}
        self.bnd = {}
        self.cons = ()
        self.bsub = {}
        self.clauses = ()
        self._rc = {}

    def copy(self):
        n = Store.__new__(Store)
        n.sub = self.sub.copy()
        n.bnd = self.bnd.copy()
        n.cons = self.cons
        n.bsub = self.bsub.copy()
        n.clauses = self.clauses
        n._rc = self._rc.copy()
        return n

    # ---- linear part -----------------------------------------------------
    def norm(self, l):
        if not l.t or not self.sub:
            return l
        sub = self.sub
        for s, _ in l.t:
            if s in sub:
                break
        else:
            return l
        r = Lin(l.c)
        for s, v in l.t:
            e = sub.get(s)
            if e is None:
                r = ladd(r, Lin(0, ((s, v),)))
            else:
                r = ladd(r, self.norm(e), v)
        return r

    def rng(self, s):
        r = self._rc.get(s)
        if r is not None:
            return r
        S = SYMS[s]
        lo, hi = self.bnd.get(s, (S.lo, S.hi))
        if S.bits is not None:
            if self.bsub:
                mn = mx = 0
                for i, b in enumerate(S.bits):
                    b = self.bred(b)
                    if b == 1:
                        mn |= 1 << i; mx |= 1 << i
                    elif b:
                        mx |= 1 << i
            else:
                mn, mx = 0, (1 << len(S.bits)) - 1
            if mn > lo: lo = mn
            if mx < hi: hi = mx
        self._rc[s] = (lo, hi)
        return lo, hi

    def lrng(self, l):
        lo = hi = l.c
        for s, v in l.t:
            a, b = self.rng(s)
            if v > 0:
                lo += v * a; hi += v * b
            else:
                lo += v * b; hi += v * a
        return lo, hi

    def relevant(self, l):
        cons = self.cons
        if not cons:
            return []
        syms = {s for s, _ in l.t}
        used = [False] * len(cons)
        out = []
        ch = True
        while ch:
            ch = False
            for i, c in enumerate(cons):
                if used[i]:
                    continue
                for s, _ in c.t:
                    if s in syms:
                        used[i] = True
                        out.append(c)
                        for q, _ in c.t:
                            if q not in syms:
                                syms.add(q); ch = True
                        break
        return out

    def entails(self, l):
        """l >= 0 holds in every concretisation."""
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        if self.lrng(l)[0] >= 0:
            return True
        if self.lrng(l)[1] < 0:
            return False
        rel = self.relevant(l)
        if not rel:
            return False
        return self.infeasible(rel + [Lin(-1 - l.c, tuple((s, -v) for s, v in l.t))])

    def infeasible(self, cons):
        return fm_infeasible(cons, self.rng)

    def upper(self, l):
        """A (tightest provable) upper bound of l."""
        l = self.norm(l)
        lo, hi = self.lrng(l)
        if not l.t or not self.cons:
            return hi
        # binary search on entailment
        if hi >= INF:
            return hi
        while lo < hi:
            mid = (lo + hi) // 2
            if self.entails(Lin(mid - l.c, tuple((s, -v) for s, v in l.t))):
                hi = mid
            else:
                lo = mid + 1
        return hi

    def add_ge(self, l):
        """Assume l >= 0. Returns False when that is contradictory."""
        l = self.norm(l)
        if not l.t:
            return l.c >= 0
        lo, hi = self.lrng(l)
        if hi < 0:
            return False
        if lo >= 0:
            return True
        if len(l.t) == 1:
            s, v = l.t[0]
            a, b = self.rng(s)
            if v > 0:
                a = max(a, -(l.c // v))         # s >= ceil(-c/v)
            else:
                b = min(b, l.c // -v)           # s <= floor(c/-v)
            if a > b:
                return False
            return self._setb(s, a, b)
        g = 0
        for _, v in l.t:
            g = gcd(g, v)
        if g > 1:
            l = Lin(l.c // g, tuple((s, v // g) for s, v in l.t))
        if l in self.cons:
            return True
        opp = Lin(-l.c, tuple((s, -v) for s, v in l.t))
        if opp in self.cons:
            self.cons = tuple(c for c in self.cons if c != opp)
            return self.add_eq(l)
        self.cons = self.cons + (l,)
        return self._prop(l)

    def _prop(self, l, depth=0):
        """Interval propagation through one constraint (l >= 0)."""
        hi = l.c
        R = []
        for s, v in l.t:
            a, b = self.rng(s)
            R.append((s, v, a, b))
            hi += v * b if v > 0 else v * a
        if hi < 0:
            return False
        for s, v, a, b in R:
            k = hi // (v if v > 0 else -v)
            if k < b - a:
                if s in self.sub:
                    continue
                if not (self._setb(s, b - k, b) if v > 0 else self._setb(s, a, a + k)):
                    return False
                if depth < 6:
                    for c in self.cons:
                        if c is not l:
                            for q, _ in c.t:
                                if q == s:
                                    if c in self.cons and not self._prop(c, depth + 1):
                                        return False
                                    break
        return True

    def _setb(self, s, a, b):
        self._rc.pop(s, None)
        self.bnd[s] = (a, b)
        if a == b:
            return self.add_eq(Lin(-a, ((s, 1),)))
        S = SYMS[s]
        if S.bits is not None and b < (1 << len(S.bits)) - 1:
            n = b.bit_length()
            for i in range(n, len(S.bits)):
                if not self.add_bit(S.bits[i], 0, sync=False):
                    return False
        return self._recons(s)

    def _recons(self, s):
        return True

    def add_eq(self, l):
        """Assume l == 0."""
        l = self.norm(l)
        if not l.t:
            return l.c == 0
        lo, hi = self.lrng(l)
        if lo > 0 or hi < 0:
            return False
        pick = None
        for s, v in l.t:
            if v in (1, -1):
                if pick is None or SYMS[s].bits is None:
                    pick = (s, v)
        if pick is None:
            g = 0
            for _, v in l.t:
                g = gcd(g, v)
            if l.c % g:
                return False
            if len(l.t) == 1:
                s, v = l.t[0]
                return self.add_eq(Lin(l.c // v, ((s, 1),)))
            self.cons = self.cons + (l, Lin(-l.c, tuple((s, -v) for s, v in l.t)))
            return True
        s, v = pick
        e = Lin(l.c * -v, tuple((q, k * -v) for q, k in l.t if q != s))
        a, b = self.rng(s)
        self.sub[s] = e
        self._rc.clear()
        old = self.cons
        self.cons = ()
        if not (self.add_ge(Lin(e.c - a, e.t)) and self.add_ge(Lin(b - e.c, tuple((q, -k) for q, k in e.t)))):
            return False
        for c in old:
            if not self.add_ge(c):
                return False
        if not e.t:
            S = SYMS[s]
            if S.bits is not None:
                for i, bt in enumerate(S.bits):
                    if not self.add_bit(bt, (e.c >> i) & 1, sync=False):
                        return False
            # symbols defined through this one that are determined now
            for q, e2 in list(self.sub.items()):
                if q != s and e2.t and SYMS[q].bits is not None:
                    for k, _ in e2.t:
                        if k == s or k in self.sub:
                            break
                    else:
                        continue
                    e3 = self.norm(e2)
                    self.sub[q] = e3
                    if not e3.t:
                        for i, bt in enumerate(SYMS[q].bits):
                            if not self.add_bit(bt, (e3.c >> i) & 1, sync=False):
                                return False
                        if e3.c >> len(SYMS[q].bits):
                            return False
        elif SYMS[s].bits is not None and len(e.t) == 1 and e.c == 0 and e.t[0][1] == 1:
            B2 = sym_bits(e.t[0][0])
            B1 = SYMS[s].bits
            for i in range(max(len(B1), len(B2))):
                f = (B1[i] if i < len(B1) else 0) ^ (B2[i] if i < len(B2) else 0)
                if not self.add_bit(f, 0, sync=False):
                    return False
        return True

    def feasible(self):
        """False only when the polyhedron is certainly empty."""
        if not self.cons:
            return True
        return not self.infeasible(list(self.cons))

    # ---- bit part ----------------------------------------------------------
    def bred(self, f):
        if f < 2 or not self.bsub:
            return f
        bsub = self.bsub
        r = f & 1
        g = f >> 1
        while g:
            low = g & -g
            g ^= low
            e = bsub.get(low)
            if e is None:
                r ^= low << 1
            else:
                r ^= self.bred(e)
        return r

    def add_bit(self, f, val, sync=True):
        f = self.bred(f) ^ val
        if f < 2:
            return f == 0
        g = f >> 1
        piv = 1 << (g.bit_length() - 1)
        self.bsub[piv] = f ^ (piv << 1)
        self._rc.clear()
        if sync:
            done = set()
            for a in form_atoms(f):
                o = ATOMS[a][0]
                if o is not None and o not in done:
                    done.add(o)
                    if not self.sync(o):
                        return False
        return self.check_clauses()

    def sync(self, s):
        """Bit facts about symbol s narrow its interval and the polyhedron."""
        a, b = self.rng(s)
        if a > b:
            return False
        e = self.sub.get(s)
        if e is not None:
            if not self.add_ge(Lin(e.c - a, e.t)):
                return False
            return self.add_ge(Lin(b - e.c, tuple((q, -k) for q, k in e.t)))
        if a == b:
            return self.add_eq(Lin(-a, ((s, 1),)))
        return True

    def check_clauses(self):
        if not self.clauses:
            return True
        todo = None
        keep = []
        for cl in self.clauses:
            n = []
            sat = False
            for f in cl:
                f = self.bred(f)
                if f == 1:
                    sat = True
                    break
                if f:
                    n.append(f)
            if sat:
                continue
            if not n:
                return False
            if len(n) == 1:
                todo = n[0] if todo is None else todo
                if todo != n[0]:
                    keep.append(frozenset(n))
                continue
            keep.append(frozenset(n))
        self.clauses = tuple(keep)
        if todo is not None:
            return self.add_bit(todo, 1)
        return True

    def add_clause(self, forms):
        """At least one of the forms is 1."""
        n = set()
        for f in forms:
            f = self.bred(f)
            if f == 1:
                return True
            if f:
                n.add(f)
        if not n:
            return False
        if len(n) == 1:
            return self.add_bit(next(iter(n)), 1)
        # lower bound for a symbol whose top slice this is
        own = None
        mn = None
        for f in n:
            if f & 1 or f & (f - 1):
                own = None
                break
            o, i, _, _ = ATOMS[f.bit_length() - 2]
            if o is None or (own is not None and o != own):
                own = None
                break
            own = o
            mn = i if mn is None else min(mn, i)
        self.clauses = self.clauses + (frozenset(n),)
        if own is not None:
            if not self.add_ge(Lin(-(1 << mn), ((own, 1),))):
                return False
        return True

    # ---- conversions -----------------------------------------------------------
    def disjoint(self, l, w):
        """A sum of symbols scaled by powers of two whose bits do not overlap."""
        parts = []
        for s, k in l.t:
            if k <= 0 or k & (k - 1) or SYMS[s].lo < 0:
                return None
            parts.append((k.bit_length() - 1, s))
        parts.sort()
        out = [0] * w
        at = 0
        for sh, s in parts:
            if sh < at:
                return None
            b = sym_bits(s)
            at = sh + self.upper(lsym(s)).bit_length()
            if at > w:
                return None
            for i in range(at - sh):
                out[sh + i] = b[i] if i < len(b) else 0
        for i in range(w):
            if l.c >> i & 1:
                if out[i] != 0:
                    return None
                out[i] = 1
        if l.c >> w:
            return None
        return tuple(out)

    def bits(self, v):
        if v.bits is not None:
            if self.bsub:
                return tuple(self.bred(b) for b in v.bits)
            return v.bits
        l = self.norm(v.lin)
        if not l.t:
            return const_bits(v.w, l.c)
        r = None
        if len(l.t) == 1 and l.c == 0:
            s, k = l.t[0]
            if k > 0 and k & (k - 1) == 0 and SYMS[s].lo >= 0:
                sh = k.bit_length() - 1
                r = (0,) * sh + sym_bits(s)
        elif len(l.t) <= 16 and l.c >= 0:
            r = self.disjoint(l, v.w)
        if r is None:
            s = LINSYM.get(l)
            if s is None:
                lo, hi = 0, (1 << v.w) - 1
                s = new_sym('[%r]' % (l,), 0, hi)
                LINSYM[l] = s
            if s not in self.sub:
                bits = sym_bits(s)
                up = min(self.upper(l), (1 << v.w) - 1)
                self.sub[s] = l
                self._rc.pop(s, None)
                for i in range(up.bit_length(), len(bits)):
                    self.add_bit(bits[i], 0, sync=False)
                # small-range low bits: nothing more is known
            r = sym_bits(s)
        if len(r) < v.w:
            r = r + (0,) * (v.w - len(r))
        else:
            r = r[:v.w]
        if self.bsub:
            r = tuple(self.bred(b) for b in r)
        return r

    def lin(self, v):
        if v.lin is not None:
            return self.norm(v.lin)
        bits = self.bits(v)
        c = 0
        core = []
        for i, b in enumerate(bits):
            if b == 1:
                c |= 1 << i
                core.append(0)
            else:
                core.append(b)
        while core and core[-1] == 0:
            core.pop()
        if not core:
            return Lin(c)
        k = 0
        while core[k] == 0:
            k += 1
        t = tuple(core[k:])
        s = COREBITS.get(t)
        if s is None:
            r = self.decompose(bits)
            if r is not None:
                return self.norm(r)
        if s is None and len(t) == 1 and t[0] & 1:
            s2 = COREBITS.get((t[0] ^ 1,))
            if s2 is not None:
                return self.norm(Lin(c + (1 << k), ((s2, -(1 << k)),)))
        if s is None:
            imp = any(ATOMS[a][2] for f in t for a in form_atoms(f))
            s = new_sym('b%d' % len(SYMS), 0, (1 << len(t)) - 1, imp, t)
            COREBITS[t] = s
            index_bits(s)
        return self.norm(Lin(c, ((s, 1 << k),)))

    def decompose(self, bits):
        """Write a bit vector as a sum of scaled known symbols (and new ones for the rest); None when nothing matches."""
        n = len(bits)
        used = [b < 2 for b in bits]
        r = Lin(sum(b << i for i, b in enumerate(bits) if b == 1))
        hit = False
        for p in range(n):
            if used[p]:
                continue
            f = bits[p]
            best = None
            for a in form_atoms(f):
                for s, i in ATOMSYM.get(a, ())[:12]:
                    if i > p:
                        continue
                    d = p - i
                    ok = True
                    nb = 0
                    cst = 0
                    for j, b in enumerate(SYMS[s].bits):
                        b = self.bred(b)
                        if b < 2:
                            cst |= b << j
                            continue
                        if j + d >= n or used[j + d] or bits[j + d] != b:
                            ok = False
                            break
                        nb += 1
                    if ok and nb and (best is None or nb > best[0]):
                        best = (nb, s, d, cst)
            if best is not None:
                _, s, d, cst = best
                hit = True
                for j, b in enumerate(SYMS[s].bits):
                    if self.bred(b) > 1:
                        used[j + d] = True
                r = ladd(r, Lin(-cst << d, ((s, 1 << d),)))
        if not hit:
            return None
        p = 0
        while p < n:
            if used[p]:
                p += 1
                continue
            q = p
            while q < n and not used[q]:
                q += 1
            t = tuple(bits[p:q])
            s = COREBITS.get(t)
            if s is None:
                imp = any(ATOMS[a][2] for f in t for a in form_atoms(f))
                s = new_sym('b%d' % len(SYMS), 0, (1 << len(t)) - 1, imp, t)
                COREBITS[t] = s
                index_bits(s)
            r = ladd(r, Lin(0, ((s, 1 << p),)))
            p = q
        return r

    def const(self, v):
        """The constant value of v in this store, or None."""
        if v.lin is not None:
            l = self.norm(v.lin)
            if not l.t:
                return l.c
            lo, hi = self.lrng(l)
            if lo == hi:
                return lo
            return None
        r = 0
        for i, b in enumerate(v.bits):
            if b > 1:
                b = self.bred(b)
                if b > 1:
                    return None
            r |= b << i
        return r


def fm_infeasible(cons, rng, cap=400):
    """Fourier-Motzkin with integer tightening. True only if certainly infeasible."""
    rows = {}
    syms = set()

    def put(c, d):
        # d: dict sym->coef; c: const ; meaning sum + c >= 0
        if not d:
            return c >= 0
        g = 0
        for v in d.values():
            g = gcd(g, v)
        if g > 1:
            c = c // g
            d = {s: v // g for s, v in d.items()}
        k = tuple(sorted(d.items()))
        o = rows.get(k)
        if o is None or c < o:
            rows[k] = c
            nk = tuple((s, -v) for s, v in k)
            o2 = rows.get(nk)
            if o2 is not None and o2 + c < 0:
                return False
        return True
    for l in cons:
        for s, _ in l.t:
            syms.add(s)
        if not put(l.c, dict(l.t)):
            return True
    for s in syms:
        lo, hi = rng(s)
        if lo > -INF and not put(-lo, {s: 1}):
            return True
        if hi < INF and not put(hi, {s: -1}):
            return True
    while syms:
        best = None
        for s in syms:
            p = n = 0
            for k in rows:
                for q, v in k:
                    if q == s:
                        if v > 0: p += 1
                        else: n += 1
                        break
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, s)
        s = best[1]
        syms.discard(s)
        P = []; N = []
        rest = {}
        for k, c in rows.items():
            v = 0
            for q, x in k:
                if q == s:
                    v = x
                    break
            if v > 0: P.append((v, k, c))
            elif v < 0: N.append((-v, k, c))
            else: rest[k] = c
        rows = rest
        if len(P) * len(N) + len(rows) > cap:
            return False
        for pv, pk, pc in P:
            for nv, nk, nc in N:
                g = gcd(pv, nv)
                a, b = nv // g, pv // g
                d = {q: x * a for q, x in pk}
                for q, x in nk:
                    y = d.get(q, 0) + x * b
                    if y: d[q] = y
                    else: d.pop(q, None)
                if not put(pc * a + nc * b, d):
                    return True
    return False
