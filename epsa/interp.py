"""Abstract interpreter over LLVM IR: trace-partitioned forward analysis with bounded unrolling, join and widening
of loops (template constraints filtered to an inductive subset)."""
import re
from .dom import *
from . import dom, mem
from .ir import P, F, Agg, Poison, NULL, Module
from .mem import Obj, read, write, copy_range, fill_range
from .widen import same_layers
from .ops import *
from .ops import neg
import sys, time

sys.setrecursionlimit(20000)


class Frame:
    __slots__ = ('fn', 'fid', 'blk', 'idx', 'prev', 'regs', 'ret', 'allocs', 'loops', 'wid', 'site')

    def copy(self):
        n = Frame.__new__(Frame)
        n.fn = self.fn; n.fid = self.fid; n.blk = self.blk; n.idx = self.idx; n.prev = self.prev
        n.regs = self.regs.copy(); n.ret = self.ret; n.allocs = list(self.allocs)
        n.loops = self.loops.copy(); n.wid = self.wid; n.site = self.site
        return n


class State:
    __slots__ = ('store', 'mem', 'frames', 'ghost', 'own', 'nfork', 'imp', 'trace', 'steps')

    def copy(self):
        n = State.__new__(State)
        n.store = self.store.copy()
        n.mem = self.mem.copy()
        n.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        n.ghost = self.ghost.copy()
        n.own = object()
        self.own = object()
        n.nfork = self.nfork
        n.imp = self.imp
        n.trace = self.trace
        n.steps = self.steps
        return n

    def note(self, txt):
        self.trace = (self.trace, txt)

    def trace_list(self, n=60):
        out = []
        t = self.trace
        while t and len(out) < n:
            out.append(t[1]); t = t[0]
        return out[::-1]


FIDS = {}


def same_state(a, b):
    """the same symbolic memory and registers: without a decision in between the program is in the same state again"""
    fa, fb = a.frames[-1], b.frames[-1]
    for o in fb.allocs:
        if o not in a.mem or o not in b.mem or not same_layers(a.mem[o].layers, b.mem[o].layers):
            return False
    if fa.regs.keys() != fb.regs.keys() or a.mem.keys() != b.mem.keys() or a.ghost != b.ghost:
        return False
    for o in a.mem:
        if not same_layers(a.mem[o].layers, b.mem[o].layers):
            return False
    for r in fa.regs:
        x, y = fa.regs[r], fb.regs[r]
        if x is not y and (type(x) is not type(y) or not hasattr(x, 'key') or x.key() != y.key()):
            return False
    return True


class Budget(Exception):
    pass


def twidth(t):
    if t == 'ptr':
        return 64
    if t[0] == 'i':
        return int(t[1:])
    if t == 'f32':
        return 32
    if t == 'f64':
        return 64
    m = re.match(r'<(\d+) x (float|double|i\d+)>', t)
    if m:       # register coercion of a small structure
        return int(m.group(1)) * twidth(m.group(2))
    raise KeyError(t)


class Interp:
    def __init__(self, mod, unroll=12, max_steps=4_000_000, intrinsics=None):
        self.mod = mod
        self.unroll = unroll; self.det = 6000      # iterations before a loop is generalised: with, without a decision in it
        self.max_steps = max_steps
        self.steps = 0
        self.findings = {}
        self.undecided = {}
        self.oblig = {}          # (kind, func, line) -> number of evaluations
        self.partitions = 0
        self.musts = {}
        self.ended = set()
        self.funcs_seen = set()
        self.quiet = 0
        self.intr = dict(intrinsics or {})
        self.loop_info = {}
        self.unknown_ext = {}
        self.hooks = []
        self.max_paths = 60000
        self.deadline = None
        self.prop = None
        self.tries = {}
        self.final_hooks = []
        self.verbose = False
        self.thresholds = set()
        self._hist = {}
        self._thr_n = -1
        self._thr = set()

    # ------------------------------------------------------------------ set-up
    def initial(self, fname):
        st = State.__new__(State)
        st.store = Store(); st.mem = {}; st.frames = []; st.ghost = {}; st.own = object()
        st.nfork = 0; st.imp = None; st.trace = None; st.steps = 0
        self.push_frame(st, self.mod.func(fname), [], None, 0)
        return st

    def push_frame(self, st, fn, args, ret, site):
        fr = Frame.__new__(Frame)
        parent = st.frames[-1].fid if st.frames else 0
        k = (parent, site, fn.name)
        fid = FIDS.get(k)
        if fid is None:
            fid = FIDS[k] = len(FIDS) + 1
        fr.fn = fn; fr.fid = fid; fr.blk = 0; fr.idx = 0; fr.prev = None
        fr.regs = {}; fr.ret = ret; fr.allocs = []; fr.loops = {}; fr.wid = frozenset(); fr.site = site
        for i, a in enumerate(args):
            fr.regs[i] = a
        st.frames.append(fr)
        self.funcs_seen.add(fn.name)
        if len(st.frames) > 120:
            self.report(st, 'depth', None, 'call depth exceeds 120')
            raise Dead()

    def new_obj(self, st, oid, size, base, name, kind):
        st.mem[oid] = Obj(size if isinstance(size, Lin) else Lin(size), [base], name, kind, st.own)

    def global_obj(self, st, oid):
        name = oid[1:]
        size, cells, const, decl = self.mod.global_cells(name)
        ls = [('zero',) if not decl else ('unknown',)]
        if cells:
            ls.append(('c', dict(cells)))
        st.mem[oid] = Obj(Lin(size), ls, name, 'const' if const else 'global', None)

    # ------------------------------------------------------------------ reports
    def where(self, st, ins=None):
        """Innermost frame outside the harness, with its call chain."""
        chain = []
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.blk]
            i = b[min(fr.idx, len(b) - 1)]
            chain.append((fr.fn.dem, i.file, i.line))
        return chain

    def site(self, st):
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.blk]
        i = b[min(fr.idx, len(b) - 1)]
        return fr.fn.dem, i.file, i.line

    def report(self, st, kind, ins, msg, extra=None):
        if self.quiet:
            return
        if not st.store.feasible():
            return
        f, file, line = self.site(st)
        k = (kind, f, msg)
        imp = st.imp
        if k in self.findings or (imp and k in self.undecided):
            return
        if not imp:
            # an alarm needs a state shown to be non-empty
            n = self.tries.get(k, 0)
            self.tries[k] = n + 1
            if n > 60:
                return
            from .witness import witness
            w, empty = witness(st.store)
            if w is None and empty:
                self.tries[k] = n
                return
            if w is None:
                imp = 'no concrete instance of this abstract state was found'
                if k in self.undecided:
                    return
            else:
                extra = dict(extra or {}, witness=['%s = %d' % (SYMS[s].name, w.norm(lsym(s)).c) for s in range(len(SYMS))
                             if SYMS[s].name[0] not in '[b' and (s in w.bnd or s in w.sub) and not w.norm(lsym(s)).t][:60])
        d = self.undecided if imp else self.findings
        if k not in d:
            d[k] = dict(kind=kind, function=f, file=file, line=line, message=msg,
                        stack=['%s (%s:%s)' % c for c in self.where(st)][:12],
                        partition=self.describe(st), path=st.trace_list(), imprecise=imp)
            if extra:
                d[k].update(extra)

    def describe(self, st):
        S = st.store
        out = []
        for s, (a, b) in list(S.bnd.items())[:40]:
            if s not in S.sub:
                out.append('%d <= %s <= %d' % (a, SYMS[s].name, b))
        for s, e in list(S.sub.items())[:20]:
            if not SYMS[s].name.startswith('['):
                out.append('%s = %r' % (SYMS[s].name, e))
        for c in S.cons[:40]:
            out.append('%r >= 0' % (c,))
        return out[:60]

    def obligation(self, st, kind):
        if self.quiet:
            return
        f, file, line = self.site(st)
        k = (kind, f, line)
        self.oblig[k] = self.oblig.get(k, 0) + 1

    # ------------------------------------------------------------------ memory with checks
    def check_access(self, st, p, n, what):
        """Returns True when the access may proceed (constraints assumed); reports otherwise."""
        if isinstance(p, Poison):
            if p.imp:
                st.imp = st.imp or 'access through an unknown pointer'
            self.report(st, 'ptr', None, '%s through an invalid pointer (%s)' % (what, p.why))
            return False
        if not isinstance(p, P):
            self.report(st, 'ptr', None, '%s through a non-pointer value' % what)
            return False
        n = n if isinstance(n, Lin) else Lin(n)
        S = st.store
        if p.o is None:
            if S.entails(neg(n)):
                return True
            self.report(st, 'null', None, '%s through a null pointer' % what)
            return False
        if p.o not in st.mem:
            if isinstance(p.o, str) and p.o[0] == '@':
                self.global_obj(st, p.o)
            else:
                self.report(st, 'scope', None, '%s of an object whose lifetime has ended' % what)
                return False
        o = st.mem[p.o]
        if o.kind == 'const' and what == 'write':
            self.report(st, 'const', None, 'write to constant data %s' % o.name)
            return False
        self.obligation(st, 'bounds')
        if not n.t and n.c == 0:
            return True
        lo, hi = (Lin(0), o.size) if p.ext is None else p.ext
        off = S.norm(p.off)
        for c, txt in ((ladd(off, lo, -1), 'before'), (ladd(ladd(hi, off, -1), n, -1), 'past')):
            c = S.norm(c)
            if not S.entails(c):
                if n.t and S.entails(neg(n)):
                    continue
                m = st.copy()
                # the violating sub-partition
                if m.store.add_ge(Lin(-1 - c.c, neg(c).t)) and (not n.t or m.store.add_ge(Lin(n.c - 1, n.t))) and m.store.feasible():
                    if any(SYMS[s].imp for s, _ in c.t):
                        m.imp = m.imp or 'imprecise offset'
                    self.report(m, 'oob', None, '%s %s the end of %s' % (what, txt, self.oname(o, p)) if txt == 'past'
                                else '%s before the start of %s' % (what, self.oname(o, p)))
                if n.t:
                    # either nothing is accessed or it is in bounds; continue with the in-bounds case
                    pass
                if not S.add_ge(c):
                    return False
        return True

    def oname(self, o, p):
        return '%s%s' % (o.name, ' (array member)' if p.ext is not None else '')

    def load(self, st, p, n):
        """-> list of (state, value)"""
        if not self.check_access(st, p, n, 'read'):
            return []
        return read(st, p.o, p.off, n)

    def store_(self, st, p, n, val):
        if not self.check_access(st, p, n, 'write'):
            return False
        write(st, p.o, p.off, n, val)
        return True

    # ------------------------------------------------------------------ exploration
    def run(self, fname):
        st = self.initial(fname)
        self.explore([st], None)
        if not self.findings and all(u['kind'] == 'contract' for u in self.undecided.values()):
            for (key, msg), d in self.musts.items():
                if not any(e[:len(key)] == key for e in self.ended):
                    self.findings[('contract', d['function'], d['message'])] = d

    def explore(self, work, stop):
        """Explore until the worklist and all parked joins are done. stop=(depth, fid, header): states arriving at
        that loop head again are collected and returned; states leaving that loop are dropped."""
        backs = []
        parked = {}
        cnt = 0
        while True:
            while work:
                st = work.pop()
                cnt += 1
                if cnt > self.max_paths:
                    raise Budget('too many partitions')
                self.run_state(st, work, stop, backs, parked)
            if not parked:
                return backs
            # process the deepest parked join first
            k = max(parked, key=lambda q: (q[0], q[4]))
            group = parked.pop(k)
            if k[1] == 'merge':
                for g in self.join(group):
                    work.append(g)
            else:
                for s in self.widen_loop(group, stop):
                    work.append(s)

    def stack_sig(self, st):
        return tuple((f.fid, f.blk, f.idx) for f in st.frames)

    def goto(self, st, fr, b, stop, backs, parked):
        """Transfer to block b. Returns False when the state is parked or dropped."""
        loops = fr.fn.loops
        src = fr.blk
        if stop is not None and len(st.frames) == stop[0] and fr.fid == stop[1]:
            body = loops[stop[2]]
            if b not in body:
                return False                    # leaves the loop under fixpoint analysis
        if loops:
            # leaving loops resets their counters
            for h in list(fr.loops):
                if b not in loops[h]:
                    del fr.loops[h]
            if fr.wid:
                fr.wid = frozenset(h for h in fr.wid if b in loops[h])
        fr.prev = src
        fr.blk = b
        fr.idx = 0
        if b in loops:
            if src in loops[b] and (b in fr.loops or b in fr.wid):      # back edge
                self.do_phis(st, fr, b)
                if stop is not None and len(st.frames) == stop[0] and fr.fid == stop[1] and b == stop[2]:
                    backs.append(st)
                    return False
                if b in fr.wid:
                    return False                # covered by the inductive invariant
                c, nf, snap = fr.loops[b]
                det = st.nfork == nf
                c2 = (c[0] + (0 if det else 1), c[1] + 1)
                if det and snap is not None and same_state(snap, st):
                    ins = next(i for i in fr.fn.blocks[b] if i.op != 'phi')
                    self.report(st, 'hang', ins, 'the loop repeats without any change, for ever')
                    return False
                if not det:
                    snap = None
                if (c2[1] + 2) & (c2[1] + 1) == 0:
                    fr.loops[b] = (c2, st.nfork, None)
                    snap = st.copy()
                fr.loops[b] = (c2, st.nfork, snap)
                if c2[0] >= (0 if self.is_history(fr.fn, b) else self.unroll) or c2[1] > self.det:
                    k = (len(st.frames), 'loop', (self.stack_sig(st), self.ghost_key(st)), b, self.loop_depth(fr, b))
                    parked.setdefault(k, []).append(st)
                    return False
                return True
            else:
                fr.loops[b] = ((0, 0), st.nfork, None)
                self.do_phis(st, fr, b)
                return True
        self.do_phis(st, fr, b)
        return True

    def is_history(self, fn, b):
        r = self._hist.get((fn.name, b))
        if r is None:
            r = any(i.op == 'call' and isinstance(i.fn, F) and i.fn.name == 'ep_more' for i in fn.blocks[b])
            self._hist[(fn.name, b)] = r
        return r

    def threshold_set(self):
        if self._thr_n != len(self.funcs_seen):
            self._thr_n = len(self.funcs_seen)
            t = {0, 1}
            for fn in self.funcs_seen:
                f = self.mod.func(fn)
                for b in f.blocks:
                    for i in b:
                        if i.op == 'icmp':
                            for a in i.args:
                                if isinstance(a, V):
                                    c = a.const()
                                    if c is not None and c < (1 << 32):
                                        t.update((c, c + 1, max(c - 1, 0)))
                        elif i.op == 'store' and isinstance(i.args[0], V):
                            c = i.args[0].const()
                            if c is not None and c < (1 << 32):
                                t.add(c)
            self._thr = t | self.thresholds
        return self._thr

    def loop_depth(self, fr, b):
        return sum(1 for h, body in fr.fn.loops.items() if b in body)

    def do_phis(self, st, fr, b):
        blk = fr.fn.blocks[b]
        vals = []
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            vals.append((blk[i].r, self.ev(fr, blk[i].inc[fr.prev])))
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.idx = i

    def ev(self, fr, a):
        if type(a) is tuple:
            if a[0] == 'r':
                return fr.regs[a[1]]
            return a
        return a

    def run_state(self, st, work, stop, backs, parked):
        """Run one state until it ends, parks, or forks (forks go to the worklist)."""
        try:
            while True:
                fr = st.frames[-1]
                ins = fr.fn.blocks[fr.blk][fr.idx]
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('step budget exhausted')
                if not self.steps & 1023 and self.deadline and time.time() > self.deadline:
                    raise Budget('time budget exhausted')
                op = ins.op
                if op == 'br':
                    if len(ins.to) == 1:
                        if not self.goto(st, fr, ins.to[0], stop, backs, parked):
                            return
                        continue
                    c = self.ev(fr, ins.args[0])
                    outs = self.branch(st, c)
                    for s, v in outs[1:]:
                        if len(outs) > 1:
                            s.note('%s:%d %s' % (ins.file.split('/')[-1], ins.line, 'true' if v else 'false'))
                        f2 = s.frames[-1]
                        if self.goto(s, f2, ins.to[0 if v else 1], stop, backs, parked):
                            work.append(s)
                    if not outs:
                        return
                    st, v = outs[0]
                    fr = st.frames[-1]
                    if not self.goto(st, fr, ins.to[0 if v else 1], stop, backs, parked):
                        return
                    continue
                if op == 'switch':
                    c = self.ev(fr, ins.args[0])
                    outs = self.do_switch(st, c, ins)
                    if not outs:
                        return
                    for s, t in outs[1:]:
                        if self.goto(s, s.frames[-1], t, stop, backs, parked):
                            work.append(s)
                    st, t = outs[0]
                    if not self.goto(st, st.frames[-1], t, stop, backs, parked):
                        return
                    continue
                if op == 'ret':
                    v = self.ev(fr, ins.args[0]) if ins.args else None
                    if stop is not None and len(st.frames) == stop[0]:
                        return                  # leaves the function that contains the loop
                    for o in fr.allocs:
                        st.mem.pop(o, None)
                    st.frames.pop()
                    if not st.frames:
                        self.partitions += 1
                        self.ended.add(st.ghost.get('key', ()))
                        for h in self.final_hooks:
                            h(self, st)
                        return
                    st.frames[-1] = st.frames[-1].copy()
                    up = st.frames[-1]
                    if fr.ret is not None and v is not None:
                        up.regs[fr.ret] = v
                    up.idx += 1
                    continue
                if op == 'unreachable':
                    return
                if op == 'call':
                    r = self.call(st, fr, ins, work, parked)
                    if r is None:
                        return
                    if r is True:
                        continue                # frame pushed
                    # list of (state, value): results of a modelled call
                    first = None
                    for s, v in r:
                        f2 = s.frames[-1]
                        if v is not None:
                            f2.regs[ins.r] = v
                        f2.idx += 1
                        if first is None:
                            first = s
                        else:
                            work.append(s)
                    if first is None:
                        return
                    st = first
                    continue
                r = self.simple(st, fr, ins)
                if r is None:
                    fr.idx += 1
                    continue
                first = None
                for s, v in r:
                    f2 = s.frames[-1]
                    f2.regs[ins.r] = v
                    f2.idx += 1
                    if first is None:
                        first = s
                    else:
                        work.append(s)
                if first is None:
                    return
                st = first
        except Dead:
            return

    def branch(self, st, c):
        if isinstance(c, Poison):
            if not c.imp:
                self.report(st, 'uninit', None, 'decision depends on %s' % c.why)
            st.imp = st.imp or c.why
            n = st.copy()
            n.nfork += 1; st.nfork += 1
            return [(st, 1), (n, 0)]
        k = st.store.const(c)
        if k is not None:
            return [(st, k & 1)]
        return bitfork(st, st.store.bits(c)[0])

    def do_switch(self, st, c, ins):
        if isinstance(c, Poison):
            if not c.imp:
                self.report(st, 'uninit', None, 'decision depends on %s' % c.why)
            st.imp = st.imp or c.why
            ts = set(t for _, t in ins.cases) | {ins.default}
            out = []
            for t in ts:
                n = st.copy(); n.nfork += 1
                out.append((n, t))
            return out
        k = st.store.const(c)
        if k is not None:
            for v, t in ins.cases:
                if v == k:
                    return [(st, t)]
            return [(st, ins.default)]
        out = []
        cur = [st]
        for v, t in ins.cases:
            nxt = []
            for s in cur:
                for s2, e in eqfork(s, c, C(c.w, v)):
                    if e:
                        s2.note('%s:%d case %d' % (ins.file.split('/')[-1], ins.line, v))
                        out.append((s2, t))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            s.note('%s:%d default' % (ins.file.split('/')[-1], ins.line))
            out.append((s, ins.default))
        return out

    # ------------------------------------------------------------------ instructions
    def simple(self, st, fr, ins):
        op = ins.op
        ev = self.ev
        if op == 'alloca':
            oid = (fr.fid, ins.r)
            v = fr.fn.vars.get(str(ins.r))
            self.new_obj(st, oid, ins.n, ('uninit',), (v[0] if v else 'tmp'), 'stack')
            fr.allocs.append(oid)
            fr.regs[ins.r] = P(oid, Lin(0))
            return None
        if op == 'load':
            p = ev(fr, ins.args[0])
            # fast path
            if type(p) is P and not p.off.t and p.ext is None:
                o = st.mem.get(p.o)
                if o is not None:
                    ly = o.layers[-1]
                    if ly[0] == 'c':
                        h = ly[1].get(p.off.c)
                        if h is not None and h[0] == ins.n:
                            fr.regs[ins.r] = h[1]
                            return None
            if isinstance(ins.t, dict):
                return self.load_agg(st, p, ins.t)
            out = []
            for s, v in self.load(st, p, ins.n):
                if isinstance(v, V) and ins.t[0] == 'i':
                    w = int(ins.t[1:])
                    if v.w != w:
                        v = cast(s, 'trunc' if v.w > w else 'zext', v, w)
                elif ins.t == 'ptr' and isinstance(v, V):
                    v = NULL if s.store.const(v) == 0 else Poison('integer used as pointer', True)
                out.append((s, v))
            return out
        if op == 'store':
            v = ev(fr, ins.args[0])
            p = ev(fr, ins.args[1])
            if isinstance(v, Agg):
                ok = True
                for (o, t), x in zip(self.flat(ins.st), v.items):
                    n = (twidth(t) + 7) // 8
                    if not self.store_(st, P(p.o, Lin(p.off.c + o, p.off.t), p.ext), n, x):
                        raise Dead()
                return None
            if isinstance(v, V) and v.w < 8:
                v = cast(st, 'zext', v, 8)
            if not self.store_(st, p, ins.n, v):
                raise Dead()
            return None
        if op == 'getelementptr':
            b = ev(fr, ins.args[0])
            if isinstance(b, Poison):
                fr.regs[ins.r] = b
                return None
            if not isinstance(b, P):
                fr.regs[ins.r] = Poison('bad pointer base', True)
                return None
            off = Lin(b.off.c + ins.off, b.off.t)
            states = [(st, off, [])]
            for a, sz in ins.idx:
                v = ev(fr, a)
                if isinstance(v, Poison):
                    if not v.imp:
                        self.report(st, 'uninit', None, 'address depends on %s' % v.why)
                    fr.regs[ins.r] = Poison('index from ' + v.why, True)
                    return None
                nxt = []
                for s, o, terms in states:
                    # signed index: non-negative in the common case
                    l = s.store.lin(v)
                    if s.store.lrng(l)[1] < (1 << (v.w - 1)) or s.store.entails(Lin((1 << (v.w - 1)) - 1 - l.c, neg(l).t)):
                        nxt.append((s, ladd(o, l, sz), terms + [lscale(l, sz)]))
                    else:
                        M = 1 << v.w
                        h = M >> 1
                        for s2, i in fork_lin(s, [[Lin(h - 1 - l.c, neg(l).t)], [Lin(l.c - h, l.t)]]):
                            l2 = l if i == 0 else Lin(l.c - M, l.t)
                            nxt.append((s2, ladd(o, l2, sz), terms + [lscale(l2, sz)]))
                states = nxt
            out = []
            for s, o, terms in states:
                ext = b.ext
                if ins.ext:
                    pos, nt, size = ins.ext
                    base = Lin(b.off.c + pos, b.off.t)
                    for t in terms[:nt]:
                        base = ladd(base, t)
                    ext = (base, Lin(base.c + size, base.t))
                    self.obligation(s, 'array-extent')
                elif ext is not None and not ins.idx and ins.off != 0:
                    ext = self.sub_ext(s, b, ins)
                out.append((s, P(b.o, s.store.norm(o), ext)))
            return out
        if op == 'icmp':
            a, b = ev(fr, ins.args[0]), ev(fr, ins.args[1])
            return icmp(st, ins.pred, a, b)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            r = binop(st, op, ev(fr, ins.args[0]), ev(fr, ins.args[1]), twidth(ins.t))
            for s, v in r:
                if isinstance(v, Poison) and not v.imp and v.why[:5] in ('shift', 'divis'):
                    self.report(s, 'ub', None, v.why)
            return r
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            fr.regs[ins.r] = cast(st, op, ev(fr, ins.args[0]), twidth(ins.t))
            return None
        if op == 'bitcast' or op == 'freeze' or op == 'addrspacecast':
            fr.regs[ins.r] = ev(fr, ins.args[0])
            return None
        if op in ('ptrtoint', 'inttoptr'):
            fr.regs[ins.r] = ev(fr, ins.args[0])
            return None
        if op == 'fcmp':
            return fcmp(st, ins.pred, ev(fr, ins.args[0]), ev(fr, ins.args[1]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
            vs = [ev(fr, a) for a in ins.args]
            for v in vs:
                if isinstance(v, Poison):
                    fr.regs[ins.r] = v
                    return None
            fr.regs[ins.r] = opaque(st, op, twidth(ins.t), *vs)
            return None
        if op == 'select':
            c = ev(fr, ins.args[0])
            return [(s, ev(s.frames[-1], ins.args[1] if v else ins.args[2])) for s, v in self.branch(st, c)]
        if op == 'extractvalue':
            a = ev(fr, ins.args[0])
            fr.regs[ins.r] = a.items[ins.ix[0]] if isinstance(a, Agg) else Poison('aggregate', True)
            return None
        if op == 'insertvalue':
            a = ev(fr, ins.args[0])
            items = list(a.items) if isinstance(a, Agg) else [Poison('undef')] * len(self.flat(ins.t))
            items[ins.ix[0]] = ev(fr, ins.args[1])
            fr.regs[ins.r] = Agg(items)
            return None
        if op == 'phi':
            return None
        raise NotImplementedError(op)

    def sub_ext(self, st, b, ins):
        """Stepping by a constant inside an array element keeps the array extent."""
        return b.ext

    def flat(self, t):
        if 's' in t:
            out = []
            for o, e in t['s']:
                if isinstance(e, str):
                    out.append((o, e))
                else:
                    out.extend((o + p, q) for p, q in self.flat(e))
            return out
        out = []
        es = t['n'] // max(t['k'], 1)
        for i in range(t['k']):
            e = t['a']
            if isinstance(e, str):
                out.append((i * es, e))
            else:
                out.extend((i * es + p, q) for p, q in self.flat(e))
        return out

    def load_agg(self, st, p, t):
        outs = [(st, [])]
        for o, e in self.flat(t):
            nxt = []
            for s, acc in outs:
                n = (twidth(e) + 7) // 8
                for s2, v in self.load(s, P(p.o, Lin(p.off.c + o, p.off.t), p.ext), n):
                    nxt.append((s2, acc + [v]))
            outs = nxt
        return [(s, Agg(a)) for s, a in outs]

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, ins, work, parked):
        fn = self.ev(fr, ins.fn)
        if isinstance(fn, Poison):
            if fn.imp:
                st.imp = st.imp or 'unknown callee'
            self.report(st, 'call', None, 'call through an invalid function pointer (%s)' % fn.why)
            return None
        if not isinstance(fn, F):
            self.report(st, 'call', None, 'call through a non-function value')
            return None
        name = fn.name
        args = [self.ev(fr, a) for a in ins.args]
        h = self.intr.get(name)
        if h is None and name.startswith('llvm.'):
            base = '.'.join(name.split('.')[:2])
            h = self.intr.get(base)
        if h is not None:
            r = h(self, st, args, ins)
            if r == 'merge':
                fr.idx += 1
                k = (len(st.frames), 'merge', self.stack_sig(st), self.ghost_key(st), 0)
                parked.setdefault(k, []).append(st)
                return None
            if r == 'widen':
                fr.idx += 1
                return True
            return r
        f = self.mod.func(name)
        if f is None or f.decl or not f.blocks:
            self.unknown_ext[name] = self.unknown_ext.get(name, 0) + 1
            st.imp = st.imp or 'unknown external function %s' % name
            if ins.t == 'void':
                return [(st, None)]
            return [(st, Poison('result of %s' % name, True))]
        # byval arguments are copied
        for i, a in enumerate(f.args):
            if 'byval' in a and i < len(args):
                oid = (fr.fid, 'byval', fr.blk, fr.idx, i)
                self.new_obj(st, oid, a['byval'], ('uninit',), 'byval', 'stack')
                if not self.check_access(st, args[i], a['byval'], 'read'):
                    return None
                copy_range(st, P(oid, Lin(0)), args[i], Lin(a['byval']))
                args[i] = P(oid, Lin(0))
        self.push_frame(st, f, args, None if ins.t == 'void' else ins.r, (fr.blk, fr.idx))
        return True

    def ghost_key(self, st):
        g = st.ghost.get('key')
        return repr(g)

    # ------------------------------------------------------------------ joins and widening: see widen.py
    def join(self, group):
        from . import widen
        return widen.join(self, group)

    def widen_loop(self, group, stop):
        from . import widen
        return widen.widen_loop(self, group, stop)
