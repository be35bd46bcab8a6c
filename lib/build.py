"""Builds spb-protoc and the harness from the current /repo tree into a scratch directory."""
import glob, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import descr, bridge  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread', '-fno-omit-frame-pointer']
CXX = 'clang++'
SCHEMAS = os.path.join(HERE, 'schemas')
GROUPS = {
    'ks2': ['ks2', 'ks2r', 'ks2t', 'ks2m', 'ks2o', 'ks2n', 'ks2a', 'ks2c', 'ks2p'],
    'ks3': ['ks2', 'ks2t', 'ks3', 'ks3r', 'ks3m', 'ks3a', 'ks3q'],
    'opt': ['opts', 'optsb', 'optsc', 'optsf', 'optsd'],
    'dflt': ['dflt'],
    'fc': ['fixedcap'],
}


class BuildError(Exception):
    """the code under test (or generated from it) does not compile"""

    def __init__(self, what, log):
        super().__init__(what)
        self.log = log


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def must(cmd, what, **k):
    r = run(cmd, **k)
    if r.returncode != 0:
        raise BuildError(what, ' '.join(cmd) + '\n' + r.stdout)
    return r.stdout


def parallel(cmds):
    """cmds: [(what, argv)]; raises BuildError of the first that fails"""
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(must, c, w) for w, c in cmds]:
            f.result()


def compiler_sources():
    base = os.path.join(REPO, 'src', 'spb-proto-compiler')
    return sorted(glob.glob(os.path.join(base, '**', '*.cpp'), recursive=True))


def compiler_cmds(out, flags, main='main'):
    """object files of the proto compiler"""
    cmds, objs = [], []
    for s in compiler_sources():
        o = os.path.join(out, s.replace('/', '_') + '.o')
        objs.append(o)
        cmds.append(('proto compiler: ' + s, [CXX, '-std=c++20', '-I' + REPO + '/src/spb-proto-compiler', '-I' + REPO + '/include',
                                             '-w', *flags, *(['-Dmain=' + main] if s.endswith('/main.cpp') and main != 'main' else []), '-c', s, '-o', o]))
    return cmds, objs


def build_compiler(work, flags=('-O0',), name='spb-protoc', link=()):
    d = os.path.join(work, 'pc_' + name)
    os.makedirs(d, exist_ok=True)
    cmds, objs = compiler_cmds(d, list(flags))
    parallel(cmds)
    exe = os.path.join(work, name)
    must([CXX, *[f for f in flags if f.startswith('-fsan') or f.startswith('-fno-san')], *objs, *link, '-o', exe], 'link of the proto compiler')
    return exe


class Corpus:
    def __init__(self, work, groups, gen=None, extra_flags=()):
        self.work = work
        self.protos = []
        for g in groups:
            for p in GROUPS[g]:
                if p not in self.protos:
                    self.protos.append(p)
        self.limits = {}
        for f in ('opts.limits.json', 'optsd.limits.json', 'fixedcap.limits.json'):
            self.limits.update(json.load(open(os.path.join(SCHEMAS, f))))

    def descriptors(self):
        self.set = os.path.join(self.work, 'all.pbset')
        must(['protoc', '-I' + SCHEMAS, '-I' + REPO + '/include/spb/proto', '-I/usr/include', '--include_imports',
              '--descriptor_set_out=' + self.set] + [p + '.proto' for p in self.protos], 'protoc', cwd=SCHEMAS)
        files = descr.file_set(open(self.set, 'rb').read())
        self.pool = descr.Pool(files)
        self.files = [f for f in files if bridge.stem(f) in self.protos]

    def generate(self, exe):
        g = os.path.join(self.work, 'gen')
        os.makedirs(g, exist_ok=True)
        must([exe, '--cpp_out', g, '-I', SCHEMAS, '-I', REPO + '/include/spb/proto', *[os.path.join(SCHEMAS, p + '.proto') for p in self.protos]],
             'generating code from the corpus')
        self.gen = g

    def bridges(self, ops='ops.h'):
        decl = os.path.join(self.gen, 'decl.h')
        bridge.decl_header(self.pool, self.files, decl)
        srcs = []
        for f in self.files:
            p = os.path.join(self.gen, 'bridge_' + bridge.stem(f) + '.cpp')
            bridge.bridge_source(self.pool, f, p, self.limits, None, 'decl.h', ops)
            # one translation unit with the generated source: half the headers to parse
            body = open(p).read()
            open(p, 'w').write('#include "%s.pb.cc"\n%s' % (bridge.stem(f), body))
            srcs.append(p)
        lim = os.path.join(self.gen, 'limits.cpp')
        bridge.limits_source(self.limits, lim)
        return srcs + [lim]


GPB_LIBS = ['-lprotobuf', '-lpthread']


def build_harness(work, groups, sources, flags, opt='-O0', ops='ops.h', exe=None, name='harness', emu=()):
    """sources: files of /verif/cpp; emu: schemas which are also compiled with the number conversions of the library;
    returns (path, corpus)"""
    c = Corpus(work, groups)
    incs = ['-I' + HERE + '/cpp', '-I' + REPO + '/include', '-I' + os.path.join(work, 'gen')]
    base = [CXX, '-std=c++20', opt, '-g1', '-w', *flags, *incs]
    own, objs, eobjs = [], [], []
    for s in sources:
        o = os.path.join(work, name + '_' + s + '.o')
        objs.append(o)
        own.append(('harness: ' + s, [*base, '-c', os.path.join(HERE, 'cpp', s), '-o', o]))
    # own sources need no generated code: compile them while the proto compiler is built
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(must, cmd, w) for w, cmd in own]
        if exe is None:
            d = os.path.join(work, 'pc')
            os.makedirs(d, exist_ok=True)
            cmds, pobjs = compiler_cmds(d, ['-O0'])
            pf = [ex.submit(must, cmd, w) for w, cmd in cmds]
        c.descriptors()
        if exe is None:
            for f in pf:
                f.result()
            exe = os.path.join(work, 'spb-protoc')
            must([CXX, *pobjs, '-o', exe], 'link of the proto compiler')
        c.generate(exe)
        gens = c.bridges(ops)
        for s in sorted(gens, key=lambda p: -os.path.getsize(p)):
            o = os.path.join(work, name + '_' + os.path.basename(s) + '.o')
            objs.append(o)
            futs.append(ex.submit(must, [*base, '-c', s, '-o', o], 'generated code: ' + os.path.basename(s)))
            if s.endswith('limits.cpp'):
                eobjs.append(o)
        for p in emu:
            o = os.path.join(work, name + '_emu_' + p + '.o')
            eobjs.append(o)
            futs.append(ex.submit(must, [*base, '-include', os.path.join(HERE, 'cpp', 'emu.h'), '-c', os.path.join(c.gen, 'bridge_%s.cpp' % p), '-o', o],
                                  'generated code: own number conversions, ' + p))
        for f in futs:
            f.result()
    out = os.path.join(work, name)
    must([CXX, *flags, *objs, *GPB_LIBS, '-o', out], 'link of the harness')
    if emu:
        must([CXX, *flags, *[os.path.join(work, name + '_' + s + '.o') for s in sources], *eobjs, *GPB_LIBS, '-o', out + '_emu'], 'link of the harness')
    c.exe = exe
    return out, c


def scratch(tag):
    return tempfile.mkdtemp(prefix='vf_' + tag + '_')


def cleanup(d):
    if os.environ.get('VERIF_KEEP'):
        print('kept', d)
        return
    shutil.rmtree(d, ignore_errors=True)
