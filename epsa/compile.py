"""Type checking of the library headers and of generated code: every schema must give code that compiles, in every language
standard supported, with two compilers."""
import glob, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from . import build, msgs, schemas
from .build import HERE, REPO, BuildError
from .driver import Finding

CC = [('clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'), 'g++']
STD = ['c++11', 'c++14', 'c++17', 'c++20']
MODES = [(c, s, ()) for c in CC for s in STD] + [(c, s, ('-DMSG_TO_STRING',)) for c in CC for s in ('c++17', 'c++20')]
SC = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'fixed32', 'sfixed32', 'float', 'fixed64', 'sfixed64', 'double']


def random_schema(seed):
    """A schema with nested and mutually using types in arbitrary order. Names are unique and every repeated, string and bytes
    field of nested types has a length."""
    R = random.Random(seed)
    pk = R.choice(['', 'a', 'a.b', 'x.y.z'])
    names = ['A', 'B', 'AB', 'BA', 'AD', 'D', 'C', 'ABC', 'Z', 'M', 'N', 'MA']
    R.shuffle(names)
    cnt = [0]

    def fresh(p):
        cnt[0] += 1
        return '%s%d' % (p, cnt[0])

    def ml(t=None):
        return '' if t and t not in ('string', 'bytes') else ' [(EmbeddedProto.options).maxLength = %d]' % R.randint(1, 5)

    def msg(name, full, depth, avail):
        o = []; own = []
        for i in range(R.randint(0, 2) if depth < 2 else 0):
            n = fresh('In')
            b = msg(n, full + '.' + n, depth + 1, avail + own)
            o.append(b[0]); own += b[1] + [full + '.' + n]
        if R.random() < .4:
            e = fresh('E')
            o.append('enum %s { %s_Z = 0; %s_ONE = 1; %s_OTHER = %d; }' % (e, e, e, e, R.choice([-5, 7, 2147483647])))
            own.append(full + '.' + e)
        one = []
        for num in R.sample(range(1, 40), R.randint(0, 6)):
            a = avail + own
            t = R.choice(SC + ['string', 'bytes']) if R.random() < .5 or not a else R.choice(a)
            f = 'f%d' % num
            q = R.random()
            if q < .2:
                o.append('repeated %s %s = %d%s;' % ('uint32' if t in ('string', 'bytes') else t, f, num, ml()))
            elif q < .4:
                o.append('optional %s %s = %d%s;' % (t, f, num, ml(t)))
            elif q < .6:
                one.append('%s %s = %d%s;' % (t, f, num, ml(t)))
            else:
                o.append('%s %s = %d%s;' % (t, f, num, ml(t)))
        if one:
            o.append('oneof %s { %s }' % (fresh('choice'), ' '.join(one)))
        return 'message %s {\n  %s\n}' % (name, '\n  '.join(o)), own
    avail = []; defs = []
    pre = '.' + pk if pk else ''
    if R.random() < .5:
        defs.append('enum Top { T_Z = 0; T_A = 7; }'); avail.append(pre + '.Top')
    for n in names[:R.randint(1, 5)]:
        b = msg(n, pre + '.' + n, 0, avail)
        defs.append(b[0]); avail += b[1] + [pre + '.' + n]
    R.shuffle(defs)
    return 'syntax = "proto3";\nimport "embedded_proto_options.proto";\n' + ('package %s;\n' % pk if pk else '') + '\n'.join(defs) + '\n'


def cxx(unit, src, incs, mode, res, what):
    c, std, fl = mode
    cmd = [c, '-std=' + std, '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'src')] + list(fl) + ['-I' + i for i in incs] + ['-x', 'c++', src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, LC_ALL='C'))
    if r.returncode == 0:
        return None
    e = next((l for l in r.stderr.split('\n') if 'error:' in l), r.stderr[:300])
    m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', e)
    f, line, txt = (m.group(1), int(m.group(2)), m.group(3)) if m else ('', 0, e)
    return Finding(unit, 'compile', '%s: %s' % (what, txt), '%s -std=%s %s' % (c, std, ' '.join(fl)), f, line, dict(output=r.stderr[:3000]))


def generated(unit, proto, d, out, res):
    try:
        build.generate([proto], d, out)
    except BuildError as x:
        return Finding(unit, 'generate', 'C21: no code is generated for a schema that is supported: ' + str(x).strip().split('\n')[-1][-300:], proto, os.path.join(d, proto), 1)


def together(odd, out, sc, res):
    """Headers of schemas with all kinds of file names, used in one program: each must be complete there, and be usable twice."""
    names = sorted(os.path.relpath(p, odd) for p in glob.glob(odd + '/files/**/*.proto', recursive=True))
    for n in names:
        f = generated('files', n, odd, out, res)
        res.add('obligations')
        if f:
            res.findings.append(f)
            return []
    t = ''.join('#include <%s.h>\n' % n[:-6] for n in names) * 2
    for n in names:
        m = re.search(r'message (\w+)', open(os.path.join(odd, n)).read()).group(1)
        t += 'static_assert(0 < sizeof(::odd::files::%s), "the message of %s");\n' % (m, n)
    src = os.path.join(sc, 'c21_files.cpp')
    open(src, 'w').write(t)
    res.units.append(dict(entry='files', module='generator'))
    return [('files', src, [out], m, res, 'C21: headers generated for several files cannot be used together') for m in MODES]


def compiles(nrandom):
    def part(prop, tier, res):
        jobs = []
        sc = build.scratch()
        build.generator_dir()
        msg = 'C21: the code generated does not compile'
        d = os.path.join(sc, 'c21'); out = os.path.join(sc, 'c21gen')
        protos, _ = msgs.emit(schemas.FILES, d)
        units = [('corpus_' + p[:-6], p, d) for p in protos]
        odd = os.path.join(HERE, 'harness', 'odd')
        for p in sorted(glob.glob(odd + '/**/*.proto', recursive=True)):
            if os.path.relpath(p, odd).startswith('files' + os.sep):
                continue
            units.append((os.path.basename(p)[:-6], os.path.relpath(p, odd), odd))
        for i in range(nrandom * (10 if tier == 'thorough' else 1)):
            p = os.path.join(d, 'rnd%03d.proto' % i)
            open(p, 'w').write(random_schema(i))
            units.append(('rnd%03d' % i, os.path.basename(p), d))
        with ThreadPoolExecutor(8) as ex:
            gen = list(ex.map(lambda u: generated(u[0], u[1], u[2], out, res), units))
        for u, f in zip(units, gen):
            res.add('obligations')
            res.units.append(dict(entry=u[0], module='generator'))
            if f:
                res.findings.append(f)
                continue
            src = os.path.join(sc, 'c21_%s.cpp' % u[0])
            t = '#include <%s.h>\n' % u[1][:-6]
            if u[0].startswith('corpus_'):
                fl = next(x for x in schemas.FILES if x.name == u[1][:-6])
                for m in fl.msgs():
                    if m.nparams():
                        t += 'template class %s;\n' % m.cpp()[2:]
            inst = os.path.join(odd, u[0] + '.inst')
            if os.path.exists(inst):
                t += open(inst).read()
            open(src, 'w').write(t)
            ms = MODES
            if u[0].startswith('rnd') and tier == 'quick':
                ms = [MODES[0], (CC[1], 'c++17', ('-DMSG_TO_STRING',))]
            for m in ms:
                jobs.append((u[0], src, [out], m, res, msg))
        jobs += together(odd, out, sc, res)
        for h in sorted(glob.glob(os.path.join(HERE, 'harness', 'self', '*.cpp'))):
            for m in MODES:
                jobs.append(('self_' + os.path.basename(h)[:-4], h, [], m, res, 'C21: a program using one header does not compile'))
        for h in sorted(glob.glob(os.path.join(REPO, 'src', '*.h')) + glob.glob(os.path.join(REPO, 'src', '*.cpp'))):
            for m in MODES:
                jobs.append(('src_' + os.path.basename(h), h, [], m, res, 'C21: a source file does not compile'))
        bad = {}
        with ThreadPoolExecutor(8) as ex:
            for f in ex.map(lambda j: cxx(*j), jobs):
                res.add('obligations')
                if f and (f.unit not in bad):
                    bad[f.unit] = f
                    res.findings.append(f)
        res.add('compilations', len(jobs))
        res.rules.update({'the code generated for every schema compiles': len(units), 'every header can be used alone': 1})
    return part
