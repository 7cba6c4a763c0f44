"""Rules over the call graph and the globals of the linked LLVM IR of the library and of generated code."""
import re
from .driver import Finding, MODS, broken
from .ir import Module, P, F, Agg
from .dom import V
from .build import REPO, BuildError, scratch
from concurrent.futures import ThreadPoolExecutor

ALLOC = re.compile(r'_Zn[wa][mj].*|malloc|calloc|realloc|reallocarray|aligned_alloc|posix_memalign|memalign|valloc|strdup|strndup|'
                   r'asprintf|vasprintf|alloca|__cxa_allocate_exception|mmap|sbrk|_ZNSt.*(basic_string|vector|deque|list|map|set).*')
THROW = re.compile(r'__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_.*')


def ours(f):
    sp = f.sp
    if not sp or f.decl:
        return False
    file = sp['file']
    return file.startswith(REPO + '/') or file.startswith(scratch() + '/gen') or file.startswith('src/') or '/gen/' in file


def load(prop, jobs, res):
    need = [(n, b) for n, b in jobs if n not in MODS]
    with ThreadPoolExecutor(8) as ex:
        for n, r in [(n, ex.submit(b)) for n, b in need]:
            try:
                MODS[n] = Module(r.result())
            except BuildError as x:
                broken(prop, n, x, res)
                MODS[n] = None
    return [(n, MODS[n]) for n, _ in jobs if MODS[n]]


def operands(i):
    out = list(i.args)
    if i.op == 'phi':
        out += list(i.inc.values())
    if i.op == 'getelementptr':
        out += [a for a, _ in i.idx]
    return out


def flat(a):
    if isinstance(a, Agg):
        for x in a.items:
            yield from flat(x)
    else:
        yield a


def calls(f):
    for b in f.blocks:
        for i in b:
            if i.op == 'call' and isinstance(i.fn, F):
                yield i


def reach(m, res):
    """functions reachable by direct calls from code of the library or generated code: name -> (caller, site)"""
    seen = {}
    work = []
    for f in m.all_funcs():
        if ours(f):
            seen[f.name] = None
            work.append(f)
    while work:
        f = work.pop()
        for i in calls(f):
            res.add('call_sites')
            g = m.func(i.fn.name)
            if g is None or g.name in seen or g.name.startswith('llvm.dbg'):
                continue
            seen[g.name] = (f, i)
            if g.blocks:
                work.append(g)
    return seen


def path(m, seen, name):
    out = []
    while seen.get(name):
        f, i = seen[name]
        out.append('%s (%s:%s)' % (f.dem, i.file, i.line))
        name = f.name
    return out


def no_heap(prop, mods, res):
    done = set()
    for n, m in mods:
        seen = reach(m, res)
        nf = 0
        for name in seen:
            f = m.func(name)
            if f.blocks:
                nf += 1
                if f.dem in res.functions:
                    continue
                res.functions.add(f.dem)
                for b in f.blocks:
                    for i in b:
                        if i.op == 'alloca' and i.n is None:
                            res.findings.append(Finding('call graph', 'stack', 'stack space whose size is not a constant', f.dem, i.file, i.line))
                continue
            res.add('obligations')
            k = 'heap' if ALLOC.fullmatch(name) else 'throw' if THROW.fullmatch(name) else None
            if k:
                c, i = seen[name]
                if (c.dem, k) in done:
                    continue
                done.add((c.dem, k))
                res.findings.append(Finding('call graph', k, '%s is reached' % f.dem, c.dem, i.file, i.line, dict(path=path(m, seen, name))))
        res.units.append(dict(entry='call graph', module=n, functions=nf))
        # cycles of direct calls
        low = {}; idx = {}; stack = []; on = set()
        import sys
        sys.setrecursionlimit(20000)

        def scc(v):
            idx[v] = low[v] = len(idx); stack.append(v); on.add(v)
            f = m.func(v)
            for i in calls(f):
                w = i.fn.name
                if w not in seen or not m.func(w).blocks:
                    continue
                if w == v:
                    cyc.append([v])
                elif w not in idx:
                    scc(w); low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = stack.pop(); on.discard(w); c.append(w)
                    if w == v:
                        break
                if len(c) > 1:
                    cyc.append(c)
        cyc = []
        for v in seen:
            if v not in idx and m.func(v).blocks:
                scc(v)
        res.add('obligations', len(idx))
        for c in cyc:
            if not any(ours(m.func(v)) for v in c):
                continue            # a helper of the standard library
            f = m.func(c[0])
            if ('rec', f.dem) not in done:
                done.add(('rec', f.dem))
                res.findings.append(Finding('call graph', 'recursion', 'recursion: ' + ' -> '.join(m.func(v).dem for v in c), f.dem, f.sp['file'], f.sp['line']))
    res.rules.update({'no allocation function is reachable': 1, 'no exception is raised': 1, 'no recursion through direct calls': 1})


def no_shared(prop, mods, res):
    done = set()
    for n, m in mods:
        seen = reach(m, res)
        for name in seen:
            f = m.func(name)
            if not f.blocks:
                continue
            res.functions.add(f.dem)
            for b in f.blocks:
                for i in b:
                    for a in operands(i):
                        for x in flat(a):
                            if isinstance(x, P) and isinstance(x.o, str) and x.o.startswith('@'):
                                res.add('obligations')
                                g = m.raw_globals.get(x.o[1:])
                                if g is None or g['const'] or x.o.startswith('@llvm.') or g.get('tls'):
                                    continue
                                k = (g['dem'], f.dem)
                                if k not in done:
                                    done.add(k)
                                    res.findings.append(Finding('globals', 'shared', 'the writable variable %s with static storage is used' % g['dem'],
                                                                f.dem, i.file, i.line))
        res.units.append(dict(entry='globals', module=n, globals=len(m.raw_globals)))
    res.rules['code uses no writable variable with static storage'] = 1


def structure(rule, runtime, files):
    def part(prop, tier, res):
        from . import specs
        jobs = [(n, specs.harness(n)) for n in runtime] + [('m_' + n, specs.msgmod(n)) for n in files] + [('t_' + n, specs.textmod(n)) for n in files]
        rule(prop, load(prop, jobs, res), res)
    return part
