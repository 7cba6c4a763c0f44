"""Check driver: builds the analysis modules of a property from /repo's current sources, runs the analyses, applies the
known-findings file, writes the evidence file and prints the verdict."""
import json, os, re, sys, time, traceback
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
from . import build, dom, mem, interp
from .ir import Module
from .intrin import I
from .build import HERE, REPO, BuildError

MODS = {}
STOP = float('inf')     # no analysis goes on after this time
KF = os.path.join(HERE, 'known_findings.txt')


class Finding:
    """One violation: rule, site and explanation."""
    def __init__(self, unit, kind, message, function='', file='', line=0, detail=None):
        self.unit = unit; self.kind = kind; self.message = message
        self.function = function; self.file = file; self.line = line; self.detail = detail or {}

    def text(self):
        where = ('%s:%s' % (self.file, self.line)) if self.file else ''
        return '[%s] %s: %s %s %s' % (self.unit, self.kind, self.message, ('in ' + self.function) if self.function else '', where)


class Result:
    def __init__(self):
        self.findings = []
        self.undecided = []
        self.stats = {}
        self.units = []
        self.functions = set()
        self.rules = {}
        self.samples = []

    def add(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def run_entry(job):
    modname, entry, opts = job[:3]
    m = MODS[modname]
    dom.reset(); mem.ANYB.clear(); dom._cc.clear(); interp.FIDS.clear()
    t = time.time()
    if t > STOP:
        return dict(entry=entry, module=modname, steps=0, paths=0, findings=[], undecided=[], oblig=[], loops=0, unstable=0, funcs=[], ext={},
                    err='budget: the time of the whole check is used up', wall=0.0)
    ip = interp.Interp(m, unroll=opts.get('unroll', 12), intrinsics=I, max_steps=opts.get('steps', 12_000_000))
    ip.prop = job[3] if len(job) > 3 else None
    ip.det = opts.get('det', 6000)
    ip.deadline = min(t + opts.get('wall', 60), STOP)
    err = None
    try:
        ip.run(entry)
    except interp.Budget as x:
        err = 'budget: %s' % x
    except RecursionError as x:
        err = 'analysis recursion limit'
    except Exception as x:
        err = 'analysis error: %s' % traceback.format_exc()[-1500:]
    return dict(entry=entry, module=modname, steps=ip.steps, paths=ip.partitions, findings=list(ip.findings.values()),
                undecided=list(ip.undecided.values()), oblig=[(k[0], k[1], k[2], v) for k, v in ip.oblig.items()],
                loops=len(ip.loop_info), unstable=sum(1 for v in ip.loop_info.values() if not v['stable']),
                funcs=sorted(m.func(f).dem for f in ip.funcs_seen), ext=dict(ip.unknown_ext), err=err, wall=time.time() - t)


from .intrin import TAG


def broken(prop, name, x, res):
    """Code of the library or code generated for a schema of the corpus that does not compile breaks every promise about it. An error in
    the harness itself means that an accessor is missing, which is the business of C22 alone."""
    if not (x.in_subject() or prop == 'C22' and x.site()):
        raise x
    f, line, txt = x.site()
    res.findings.append(Finding(name, 'compile', 'the code analysed does not compile: ' + txt, '', f, line, dict(output=str(x)[-3000:])))


def analyse(prop, jobs, res, procs=8, optional=False):
    """jobs: [(module name, builder() -> json path or list of (name, json), entry regex, opts)]"""
    todo = []
    t = time.time()
    need = {}
    for modname, builder, rx, opts in jobs:
        if modname not in MODS:
            need[modname] = builder
    with ThreadPoolExecutor(8) as ex:
        built = {n: ex.submit(b) for n, b in need.items()}
    for n, f in built.items():
        try:
            MODS[n] = Module(f.result())
        except BuildError as x:
            broken(prop, n, x, res)
            MODS[n] = None
    res.add('build_ms', int(1000 * (time.time() - t)))
    for modname, builder, rx, opts in jobs:
        m = MODS[modname]
        if m is None:
            continue
        names = sorted(n for n in m.entries() if re.fullmatch(rx, n))
        if not names and not optional:
            raise BuildError('no entry of %s matches %s' % (modname, rx))
        for n in names:
            todo.append((modname, n, opts, prop))
    ctx = mp.get_context('fork')
    if not todo:
        return
    with ctx.Pool(min(procs, max(1, len(todo)))) as pool:
        for r in pool.imap_unordered(run_entry, todo, 1 if len(todo) < 300 else 2):
            collect(prop, r, res)


def collect(prop, r, res):
    res.units.append(dict(entry=r['entry'], module=r['module'], steps=r['steps'], partitions=r['paths'], loops=r['loops'],
                          wall_s=round(r['wall'], 2), error=r['err']))
    res.functions.update(f for f in r['funcs'])
    res.add('abstract_steps', r['steps']); res.add('partitions', r['paths']); res.add('loops_generalised', r['loops'])
    for k, f, line, n in r['oblig']:
        res.add('obligation_sites'); res.add('obligation_evaluations', n)
        kk = k if k.startswith('contract') else 'memory/' + k
        res.rules[kk] = res.rules.get(kk, 0) + 1
    if r['err']:
        res.undecided.append(Finding(r['entry'], 'budget', r['err']))
    for d in r['findings']:
        t = TAG.match(d['message'])
        if d['kind'] == 'contract' and t and prop not in t.group(1):
            continue
        res.findings.append(Finding(r['entry'], d['kind'], d['message'], d['function'], d['file'], d['line'], d))
    for d in r['undecided']:
        t = TAG.match(d['message'])
        if d['kind'] == 'contract' and t and prop not in t.group(1):
            continue
        res.undecided.append(Finding(r['entry'], d['kind'], d['message'], d['function'], d['file'], d['line'], d))


def known(prop):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r'known: property=(\S+) unit=(\S+) message="([^"]*)" (.*)', l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    return out


def main(argv):
    from . import specs
    prop = argv[0]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = specs.PROPS[prop]
    global STOP
    t0 = time.time()
    STOP = t0 + (600 if tier == 'quick' else 3000)
    res = Result()
    try:
        for part in spec['parts']:
            part(prop, tier, res)
    except BuildError as x:
        print('ERROR: cannot analyse /repo: %s' % x)
        return 2
    ks = known(prop)
    hit = {}
    viol = []
    for f in res.findings:
        for i, (unit, msg, desc) in enumerate(ks):
            if re.fullmatch(unit, f.unit) and msg == f.message:
                hit[i] = desc
                break
        else:
            viol.append(f)
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, '%s.violation.json' % prop)
    if viol:
        json.dump([dict(unit=f.unit, kind=f.kind, message=f.message, function=f.function, file=f.file, line=f.line,
                        detail=f.detail) for f in viol], open(rp, 'w'), indent=1, default=str)
    elif os.path.exists(rp):
        os.remove(rp)
    nob = res.stats.get('obligation_sites', 0) + res.stats.get('obligations', 0)
    cov = dict(explanation=spec['explanation'], obligations=nob, discharged=max(0, nob - len(res.findings) - len(res.undecided)),
               checker_cmd='./check %s --tier %s' % (prop, tier), units=res.units,
               functions_analysed=sorted(f for f in res.functions if not f.startswith('ep_'))[:400],
               rules=res.rules, undecided=[f.text() for f in res.undecided], known_findings=list(hit.values()),
               samples=res.samples[:20])
    cov.update(res.stats)
    json.dump(dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'other'), coverage=cov,
                   assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol)),
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    for d in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, d))
    for f in res.undecided:
        print('UNDECIDED: %s' % f.text())
    for f in viol:
        print(f.text())
    print('%s: %d units, %d obligations, %d undecided, %d violations, %.1f s' % (prop, len(res.units), nob, len(res.undecided), len(viol), time.time() - t0))
    if viol:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    return 0
