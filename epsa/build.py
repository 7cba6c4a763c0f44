"""Front end: generates code from schemas with /repo's generator, compiles harness translation units against /repo's
current sources to LLVM IR and dumps them for the analyses. Everything lands in a scratch directory."""
import os, subprocess, hashlib, shutil, tempfile, sys, glob, atexit, threading

REPO = os.environ.get('EP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
_scratch = None


class BuildError(Exception):
    def site(self):
        """(file, line, text) of the first error of the compiler"""
        import re
        m = re.search(r'^--eams_out: (.*)$', str(self), re.M)
        if m:
            return (os.path.join(REPO, 'generator'), 0, 'the generator refuses a schema: ' + m.group(1))
        m = re.search(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', str(self), re.M)
        return (m.group(1), int(m.group(2)), m.group(3)) if m else None

    def in_subject(self):
        """is the error in the library or in generated code, rather than in a harness?"""
        s = self.site()
        return s is not None and (os.path.realpath(s[0]).startswith(os.path.realpath(REPO) + '/') or s[0].startswith(os.path.join(scratch(), 'gen') + '/'))


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd), r.stdout[-3000:], r.stderr[-6000:]))
    return r.stdout


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='epsa_')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


_lock = threading.Lock()


def irdump():
    src = os.path.join(HERE, 'epsa', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(HERE, 'build')
    exe = os.path.join(d, 'irdump-' + h)
    with _lock:
        if not os.path.exists(exe):
            os.makedirs(d, exist_ok=True)
            flags = sh(['llvm-config-18', '--cxxflags', '--ldflags']).split()
            tmp = exe + '.%d' % os.getpid()
            sh([CLANG, '-O1', src, '-o', tmp] + flags + ['-lLLVM-18'])
            os.replace(tmp, exe)
    return exe


BASEFLAGS = ['-std=c++14', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-fno-exceptions', '-fno-rtti', '-flto',
             '-fwhole-program-vtables', '-fvisibility=hidden', '-fno-discard-value-names', '-w']


def to_json(tus, name, incs=(), flags=(), with_lib=True):
    """Compile translation units (+ /repo/src/*.cpp), link the bitcode, dump. Returns the JSON path."""
    d = scratch()
    bcs = []
    tus = list(tus)
    if with_lib:
        tus += sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    procs = []
    for i, t in enumerate(tus):
        bc = os.path.join(d, '%s_%d.bc' % (name, i))
        cmd = [CLANG] + BASEFLAGS + list(flags) + ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(HERE, 'harness')] + \
              ['-I' + x for x in incs] + ['-c', '-emit-llvm', t, '-o', bc]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        bcs.append(bc)
    for cmd, p in procs:
        o, e = p.communicate()
        if p.returncode:
            raise BuildError('%s\n%s' % (' '.join(cmd), e[-6000:]))
    out = os.path.join(d, name + '.bc')
    if len(bcs) > 1:
        sh(['llvm-link-18'] + bcs + ['-o', out])
    else:
        shutil.copy(bcs[0], out)
    js = os.path.join(d, name + '.json')
    sh([irdump(), out, js])
    return js


def generator_dir():
    """A scratch copy of /repo's generator with its option bindings compiled."""
    d = os.path.join(scratch(), 'generator')
    if not os.path.exists(d):
        shutil.copytree(os.path.join(REPO, 'generator'), d, ignore=shutil.ignore_patterns('*_pb2.py', '__pycache__', 'build', '*.egg-info'))
        sh(['protoc', '-I.', '--python_out=EmbeddedProto', 'embedded_proto_options.proto'], cwd=d)
        w = os.path.join(d, 'plugin.sh')
        open(w, 'w').write('#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=%s exec %s -c "from EmbeddedProto.main import main_plugin; main_plugin()"\n'
                           % (d, python()))
        os.chmod(w, 0o755)
    return d


def python():
    for r in (REPO, '/repo'):
        p = os.path.join(r, 'venv', 'bin', 'python')
        if os.path.exists(p):
            return p
    return sys.executable


def generate(protos, protodir, out):
    """Run the generator on schemas; returns the output directory."""
    g = generator_dir()
    os.makedirs(out, exist_ok=True)
    sh(['protoc', '-I' + protodir, '-I' + g, '--eams_out=' + out,
        '--plugin=protoc-gen-eams=' + os.path.join(g, 'plugin.sh')] + list(protos), cwd=protodir)
    return out


def descriptor_set(protos, protodir):
    g = generator_dir()
    f = os.path.join(scratch(), 'desc_%s.bin' % hashlib.md5(' '.join(protos).encode()).hexdigest()[:8])
    sh(['protoc', '-I' + protodir, '-I' + g, '--include_imports', '--descriptor_set_out=' + f] + list(protos), cwd=protodir)
    return f
