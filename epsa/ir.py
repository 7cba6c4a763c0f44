"""Loads the JSON form of an LLVM module and prepares it for analysis (operands, loops, classes, vtables)."""
import json
from .dom import C, V, Lin


class P:
    """Pointer: object id + byte offset (Lin), optional sub-object extent (lo, hi) as Lins."""
    __slots__ = ('o', 'off', 'ext')

    def __init__(self, o, off, ext=None):
        self.o = o
        self.off = off
        self.ext = ext

    def __repr__(self):
        return 'P(%s+%r)' % (self.o, self.off)

    def key(self):
        return ('P', self.o, self.off)


class F:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __repr__(self):
        return 'F(%s)' % self.name

    def key(self):
        return ('F', self.name)


class Agg:
    """First-class aggregate SSA value."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return ('A',) + tuple(i.key() if i is not None else None for i in self.items)


class Poison:
    """Unknown or uninitialised content; imp says that it comes from imprecision, not from the program."""
    __slots__ = ('why', 'imp', 'bytes')

    def __init__(self, why, imp=False, bytes=None):
        self.why = why
        self.imp = imp
        self.bytes = bytes      # the single bytes, where some of them are known (padding read along with them)

    def __repr__(self):
        return 'Poison(%s)' % self.why

    def key(self):
        return ('X', self.imp, tuple(b.key() for b in self.bytes) if self.bytes else None)


NULL = P(None, Lin(0))


class Ins:
    __slots__ = ('op', 'r', 't', 'args', 'line', 'file', 'n', 'x', 'at', 'pred', 'off', 'idx', 'ext', 'to', 'cases',
                 'default', 'inc', 'ix', 'fn', 'noreturn', 'st', 'elts')


class Func:
    def __init__(self, name, j, mod):
        self.name = name
        self.dem = j['dem']
        self.decl = j['decl']
        self.ret = j['ret']
        self.args = j['args']
        self.sp = j.get('sp')
        self.noreturn = j.get('noreturn')
        self.vars = j.get('vars', {})
        self.blocks = []
        self._loops = None
        for b in j.get('blocks', []):
            out = []
            for i in b:
                n = Ins()
                n.op = i['o']; n.r = i['r']; n.t = i['t']
                n.line = i.get('l', 0); n.file = i.get('lf', '')
                n.args = [mod.opnd(a) for a in i.get('a', [])]
                n.n = i.get('n'); n.at = i.get('at'); n.pred = i.get('p'); n.st = i.get('st')
                n.x = None
                if n.op == 'getelementptr':
                    n.args = [mod.opnd(i['b'])]
                    n.off = i['off']; n.idx = [(mod.opnd(a), s) for a, s in i['idx']]
                    n.ext = i.get('ext')
                elif n.op == 'call':
                    n.fn = mod.opnd(i['fn']); n.noreturn = i.get('noreturn')
                    n.to = i.get('normal')
                elif n.op == 'br':
                    n.to = i['to']
                elif n.op == 'switch':
                    n.cases = [(int(c), t) for c, t in i['cases']]; n.default = i['default']
                elif n.op == 'phi':
                    n.inc = {b: mod.opnd(a) for b, a in i['in']}
                elif n.op in ('extractvalue', 'insertvalue'):
                    n.ix = i['ix']
                out.append(n)
            self.blocks.append(out)

    def succ(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return t.to
        if t.op == 'switch':
            return [x for _, x in t.cases] + [t.default]
        if t.op == 'call' and t.to is not None:
            return [t.to]
        return []

    @property
    def loops(self):
        """header -> set of blocks of the natural loop."""
        if self._loops is None:
            n = len(self.blocks)
            pred = [[] for _ in range(n)]
            for b in range(n):
                for s in self.succ(b):
                    pred[s].append(b)
            full = set(range(n))
            dom = [full.copy() for _ in range(n)]
            if n:
                dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in range(1, n):
                    ps = [dom[p] for p in pred[b]]
                    d = set.intersection(*ps) if ps else set()
                    d = d | {b}
                    if d != dom[b]:
                        dom[b] = d; ch = True
            L = {}
            for b in range(n):
                for s in self.succ(b):
                    if s in dom[b]:
                        body = L.setdefault(s, {s})
                        st = [b]
                        while st:
                            x = st.pop()
                            if x in body:
                                continue
                            body.add(x)
                            st.extend(pred[x])
            self._loops = L
        return self._loops


class Module:
    def __init__(self, path):
        j = json.load(open(path))
        self.raw_globals = j['globals']
        self.classes = j['classes']
        self.funcs = {}
        self._raw = j['funcs']
        for n, f in j['funcs'].items():
            self.funcs[n] = None

    def func(self, n):
        f = self.funcs.get(n)
        if f is None and n in self._raw:
            f = self.funcs[n] = Func(n, self._raw[n], self)
        return f

    def entries(self):
        """the harness entry points (extern "C" definitions)"""
        return [n for n in self._raw if self._raw[n].get('blocks') and not n.startswith('_') and not n.startswith('ep_') and not n.startswith('llvm.')]

    def all_funcs(self):
        return [self.func(n) for n in self._raw]

    def opnd(self, a):
        """('r', id) for a register, otherwise an abstract constant."""
        if 'v' in a:
            return ('r', a['v'])
        if 'c' in a:
            return C(a['w'], int(a['c']))
        if 'null' in a:
            return NULL
        if 'f' in a:
            return F(a['f'])
        if 'g' in a:
            return P('@' + a['g'], Lin(a['off']))
        if 'undef' in a:
            return Poison('undef')
        if 'md' in a:
            return ('md', a['md'])
        return Poison('constant expression ' + str(a)[:80], True)

    def global_cells(self, name):
        """(size, dict off -> (size, value), zero?, const?) of a global."""
        g = self.raw_globals[name]
        cells = {}

        def put(off, i):
            if 'zero' in i:
                return
            if 'arr' in i:
                for k, e in enumerate(i['arr']):
                    put(off + k * i['es'], e)
            elif 'st' in i:
                for o, e in i['st']:
                    put(off + o, e)
            elif 'c' in i:
                cells[off] = ((i['w'] + 7) // 8, C(i['w'], int(i['c'])))
            elif 'undef' in i:
                return
            else:
                cells[off] = (8, self.opnd(i))
        if 'init' in g:
            put(0, g['init'])
        return g['size'], cells, g['const'], g['decl']
