"""Checks which do not fit the case loop of the harness."""
import glob, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import build, bridge, descr, runner, schemagen

CHECKS = {}
PB = build.REPO + '/include/spb/proto'
CORE = ['value.cpp', 'gpb.cpp', 'gen.cpp', 'wire.cpp', 'jsonv.cpp', 'run.cpp']
TRUST = ['Google protobuf 3.21.12 (protoc, DynamicMessage, json_util) as the reference for the language, the wire format and the JSON mapping',
         'clang 18 as the judge of whether generated code is valid C++20']


def digest(*parts):
    import hashlib
    h = hashlib.blake2b(digest_size=8)
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode('utf8', 'surrogateescape'))
        h.update(b'\0')
    return int.from_bytes(h.digest(), 'little')


# ------------------------------------------------------------------ C13: generated code

RUNS = [  # check, cases quick, cases thorough
    ('FRESH', 0, 0), ('C01', 20000, 400000), ('C02', 12000, 200000), ('C03', 20000, 400000), ('C04', 12000, 200000),
    ('C05', 12000, 200000), ('C11', 24000, 400000)]
PER_TU = 3


class Batch:
    """random schemas, compiled by protoc and by the compiler under test"""

    def __init__(self, work, exe, seed, n, res):
        self.work, self.res, self.exe = work, res, exe
        self.dir = os.path.join(work, 'protos')
        self.gen = os.path.join(work, 'gen')
        os.makedirs(self.dir)
        os.makedirs(self.gen, exist_ok=True)
        self.schemas = []
        for i in range(n):
            s = schemagen.Schema('%d/%d' % (seed, i), 'r%d' % i)
            s.index = i
            for f, t in s.texts.items():
                open(os.path.join(self.dir, f), 'w', newline='').write(t)
            self.schemas.append(s)

    def replay(self, s):
        return 'schema %d:\n' % s.index + '\n'.join('---- %s\n%s' % x for x in s.texts.items())

    def each(self, fn):
        with ThreadPoolExecutor(build.JOBS) as ex:
            return [s for s, ok in zip(self.schemas, ex.map(fn, self.schemas)) if ok]

    def protoc(self):
        """the generator of schemas may make a mistake: what protoc refuses is not a valid schema"""
        inc = ['-I' + self.dir, '-I' + PB, '-I/usr/include']

        def ok(s):
            return build.run(['protoc', *inc, '--descriptor_set_out=/dev/null', *s.files], cwd=self.dir).returncode == 0
        n = len(self.schemas)
        self.schemas = self.each(ok)
        self.res.count['schemas refused by protoc'] = n - len(self.schemas)
        self.set = os.path.join(self.work, 'all.pbset')
        files = [f for s in self.schemas for f in s.files]
        build.must(['protoc', *inc, '--include_imports', '--descriptor_set_out=' + self.set, *files], 'protoc', cwd=self.dir)
        files = descr.file_set(open(self.set, 'rb').read())
        self.pool = descr.Pool(files)
        self.byname = {f.name: f for f in files}

    def compile_protos(self):
        def ok(s):
            self.res.hashes.add(digest(*s.texts.values()))
            r = build.run([self.exe, '--cpp_out', self.gen, '-I', self.dir, '-I', PB, *[os.path.join(self.dir, f) for f in s.files]])
            if r.returncode == 0:
                return True
            msg = re.sub(r'^.*?\.proto:\d+:\d+:\s*', '', r.stdout.strip().split('\n')[0])
            self.res.add('rejected:' + re.sub(r"'[^']*'|\"[^\"]*\"|\d+", '*', msg)[:60], 'valid schema rejected: ' + r.stdout[:2000], self.replay(s))
            return False
        self.schemas = self.each(ok)

    def source(self, s, ops):
        files = [self.byname[f] for f in s.files]
        decl = 'decl_%s.h' % s.tag
        bridge.decl_header(self.pool, files, os.path.join(self.gen, decl))
        o = ['#include "%s.pb.cc"' % bridge.stem(f) for f in files]
        for f in files:
            p = os.path.join(self.gen, 'bridge_' + bridge.stem(f) + '.inc')
            bridge.bridge_source(self.pool, f, p, s.limits, None, decl, ops)
            o.append('#include "%s"' % os.path.basename(p))
        for f in files:
            p = os.path.join(self.gen, 'types_' + bridge.stem(f) + '.inc')
            bridge.type_asserts(self.pool, f, p, s.limits, loose=True)
            o.append('#include "%s"' % os.path.basename(p))
            o += ['#undef SAME', '#undef ENUMV']
        return '\n'.join(o) + '\n'

    def compile_cpp(self, base, ops='ops.h'):
        """objects of all schemas, those which are not valid C++ are violations"""
        groups = [self.schemas[i:i + PER_TU] for i in range(0, len(self.schemas), PER_TU)]
        good, objs = [], []

        def tu(g):
            name = 'tu_%d' % g[0].index + ('' if len(g) > 1 else 's')
            p = os.path.join(self.gen, name + '.cpp')
            open(p, 'w').write('\n'.join(self.source(s, ops) for s in g))
            return build.run([*base, '-c', p, '-o', p + '.o']), p + '.o'

        def one(g):
            r, o = tu(g)
            if r.returncode == 0:
                return g, [o]
            ok, os_ = [], []
            for s in g:
                r, o = tu([s])
                if r.returncode == 0:
                    ok.append(s)
                    os_.append(o)
                else:
                    err = [x for x in r.stdout.split('\n') if 'error' in x]
                    msg = re.sub(r'^.*?error:\s*', '', err[0]) if err else r.stdout[:100]
                    self.res.add('compile:' + re.sub(r"'[^']*'|\"[^\"]*\"|\d+", '*', msg)[:60], 'generated code does not compile: ' + r.stdout[:3000], self.replay(s))
            return ok, os_
        with ThreadPoolExecutor(build.JOBS) as ex:
            for g, o in ex.map(one, groups):
                good += g
                objs += o
        self.schemas = good
        return objs


def corpus_types(work, exe, res):
    """the documented C++ type of every field and value of every enum of the corpus, and of the .proto files in the repository's README style"""
    d = os.path.join(work, 'corpus')
    os.makedirs(d)
    c = build.Corpus(d, ['ks2', 'ks3', 'opt', 'dflt'])
    custom = json.load(open(build.SCHEMAS + '/opts.types.json'))
    c.descriptors()
    c.generate(exe)

    def one(f):
        p = os.path.join(c.gen, 'types_%s.cpp' % bridge.stem(f))
        bridge.type_asserts(c.pool, f, p, c.limits, custom)
        r = build.run([build.CXX, '-std=c++20', '-w', '-fsyntax-only', '-I' + build.HERE + '/cpp', '-I' + build.REPO + '/include', '-I' + c.gen, p])
        if r.returncode:
            err = [x for x in r.stdout.split('\n') if 'error' in x]
            m = re.search(r'"((?:type of|value of)[^"]*)"', r.stdout) or re.search(r'static assertion failed.*?: (.*)', r.stdout)
            res.add('corpus:' + bridge.stem(f) + ':' + re.sub(r'\W+', ' ', m.group(1) if m else 'compile')[:60],
                    '\n'.join(err[:20]) + '\n' + r.stdout[:2000], 'types of schemas/%s' % f.name)
        return open(p).read().count('SAME(') + open(p).read().count('ENUMV(') - 2
    with ThreadPoolExecutor(build.JOBS) as ex:
        res.count['C++ types asserted'] = sum(ex.map(one, c.files))


def message_graph(r, i):
    """messages which refer to each other in any way, recursion included"""
    three = r.random() < .4
    out = ['syntax = "proto%d";\npackage g%d;\n' % (3 if three else 2, i)]
    n = r.randint(2, 7)
    par = [r.randrange(k) if k and r.random() < .3 else -1 for k in range(n)]
    path = []
    for k in range(n):
        path.append((path[par[k]] + '.' if par[k] >= 0 else '') + 'M%d' % k)
    num = [0]
    # a reference which closes a cycle has to go through a vector or a pointer most of the time, the compiler refuses most of the others
    rank = list(range(n))
    r.shuffle(rank)

    def put(k, pad):
        out.append('%smessage M%d {\n' % (pad, k))

        def kids(now):
            for x in range(n):
                if par[x] == k and (x % 2 == 0) == now:
                    put(x, pad + '  ')
        kids(True)
        for _ in range(r.randrange(4)):
            x = k if r.random() < .2 else r.randrange(n)
            t = 'int32' if r.random() < .1 else '.g%d.%s' % (i, path[x])
            num[0] += 1
            f = num[0]
            c = r.randrange(6)
            if t != 'int32' and rank[x] >= rank[k] and r.random() < .85:
                c = 5 if x == k and r.random() < .6 else 0
            if c == 0:
                line = 'repeated %s f%d = %d;' % (t, f, f)
            elif c == 1:
                line = 'map<%s, %s> f%d = %d;' % (r.choice(['string', 'int32', 'bool']), t, f, f)
            elif c == 2:
                line = 'oneof o%d { int32 a%d = %d; %s b%d = %d; }' % (f, f, f, t, f, f + 500)
            elif c == 3 and not three:
                line = 'required %s f%d = %d;' % (t, f, f)
            else:
                line = 'optional %s f%d = %d;' % (t, f, f)
            out.append('%s  %s\n' % (pad, line))
        kids(False)
        out.append(pad + '}\n')
    top = [k for k in range(n) if par[k] < 0]
    r.shuffle(top)
    for k in top:
        put(k, '')
    return ''.join(out), path


def message_graphs(work, exe, seed, n, res):
    """the code of every graph the compiler accepts is valid C++, uses of every message included"""
    d = os.path.join(work, 'graphs')
    os.makedirs(d)

    def one(i):
        text, path = message_graph(random.Random('graph %d/%d' % (seed, i)), i)
        res.hashes.add(digest(text))
        p = os.path.join(d, 'g%d.proto' % i)
        open(p, 'w').write(text)
        r = build.run([exe, '--cpp_out', d, p])
        if r.returncode:
            return None
        use = ['#include "g%d.pb.cc"' % i, 'void use%d() {' % i]
        for m in path:
            use.append('{ g%d::%s m; auto pb = spb::pb::serialize(m); spb::pb::deserialize(m, pb); auto js = spb::json::serialize(m); spb::json::deserialize(m, js); }' % (i, m.replace('.', '::')))
        return i, text, '\n'.join(use + ['}'])

    def tu(group):
        p = os.path.join(d, 'tu%d_%d.cpp' % (group[0][0], len(group)))
        open(p, 'w').write('\n'.join(x[2] for x in group) + '\n')
        return build.run([build.CXX, '-std=c++20', '-w', '-fsyntax-only', '-I' + build.REPO + '/include', '-I' + d, p])

    def check(group):
        if tu(group).returncode == 0:
            return
        for x in group:
            r = tu([x])
            if r.returncode:
                err = [y for y in r.stdout.split('\n') if 'error' in y]
                msg = re.sub(r'^.*?error:\s*', '', err[0]) if err else r.stdout[:100]
                res.add('graph:' + re.sub(r"'[^']*'|\"[^\"]*\"|\d+", '*', msg)[:60], 'generated code does not compile: ' + r.stdout[:3000], x[1])
    with ThreadPoolExecutor(build.JOBS) as ex:
        ok = [x for x in ex.map(one, range(n)) if x]
        size = max(1, min(12, len(ok) // build.JOBS + 1))
        list(ex.map(check, [ok[i:i + size] for i in range(0, len(ok), size)]))
    res.count['message graphs'] = n
    res.count['message graphs accepted'] = len(ok)
    shutil.rmtree(d, ignore_errors=True)


def c13(prop, tier, seed, t0):
    thorough = tier == 'thorough'
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    res = runner.Result()
    rounds = int(max(1, 12 * scale)) if thorough else 1
    n = 64 if thorough else int(33 * scale) or 1
    srcs = CORE + ['c_pb.cpp', 'c_json.cpp', 'c_limit.cpp', 'c_schema.cpp', 'feed.cpp', 'mutate.cpp']
    work = build.scratch(prop)
    try:
        base = [build.CXX, '-std=c++20', '-O0', '-g1', '-w', *build.ASAN, '-I' + build.HERE + '/cpp', '-I' + build.REPO + '/include']
        own = [os.path.join(work, s + '.o') for s in srcs]
        with ThreadPoolExecutor(build.JOBS) as ex:
            futs = [ex.submit(build.must, [*base, '-c', os.path.join(build.HERE, 'cpp', s), '-o', o], 'harness: ' + s) for s, o in zip(srcs, own)]
            exe = build.build_compiler(work)
            for f in futs:
                f.result()
        corpus_types(work, exe, res)
        message_graphs(work, exe, seed, int((1500 if thorough else 120) * scale) or 1, res)
        for rnd in range(rounds):
            w = os.path.join(work, 'b%d' % rnd)
            os.makedirs(w)
            b = Batch(w, exe, seed * 1000 + rnd, n, res)
            b.protoc()
            b.compile_protos()
            objs = b.compile_cpp([*base, '-I' + b.gen])
            res.count['schemas compiled and run'] = res.count.get('schemas compiled and run', 0) + len(b.schemas)
            limits = {}
            for s in b.schemas:
                limits.update(s.limits)
            lim = os.path.join(b.gen, 'limits.cpp')
            bridge.limits_source(limits, lim)
            build.must([*base, '-c', lim, '-o', lim + '.o'], 'limits')
            h = os.path.join(w, 'harness')
            build.must([build.CXX, *build.ASAN, *own, *objs, lim + '.o', *build.GPB_LIBS, '-o', h], 'link of the harness')
            types = sum(len(bridge.all_messages(b.byname[f])) for s in b.schemas for f in s.files)
            res.count['message types'] = res.count.get('message types', 0) + types
            for chk, q, t in RUNS:
                cases = int((t if thorough else q) * scale) or types
                r = runner.run_shards(h, chk, cases, seed + rnd, w, ['--set', b.set, '--thorough', '1' if thorough else '0'],
                                      total=600, env=runner.NO_UAR)
                for f in r.fails:
                    s = next((s for s in b.schemas if re.search(r'\bp?r%d\b|\bGr%d[A-Z]' % (s.index, s.index), f['detail'][:300] + f['key'])), None)
                    f['key'] = chk + ':' + f['key']
                    f['replay'] = f['replay'][:20000] + '\nseed %d round %d\n' % (seed, rnd) + (b.replay(s) if s else '')
                res.fails += r.fails
                res.hashes |= r.hashes
                res.inconclusive += r.inconclusive
                res.samples += ['%s: %s' % (chk, x) for x in r.samples[:2]]
                for k, v in r.count.items():
                    if not k.startswith('type '):
                        res.count[chk + ' ' + k] = res.count.get(chk + ' ' + k, 0) + v
            shutil.rmtree(w, ignore_errors=True)
        total = sum(v for k, v in res.count.items() if k.endswith(' cases')) + res.count.get('message types', 0)
        return runner.finish(prop, tier, seed, 'exploration', res,
                             'one case = one message value or encoding of one type of a randomly generated schema, written and read by the code generated for it '
                             '(round trips, Google as the peer, documented limits, defaults of new messages); every schema is also compiled with assertions on the C++ types; distinct = different values or encodings',
                             t0, assumptions=TRUST, evaluations=total)
    finally:
        build.cleanup(work)


CHECKS['C13'] = c13


# ------------------------------------------------------------------ C14: the compiler on any input

def compiler_corpus(d, seed, n):
    """realistic schemas: those of the repository, those of this directory, random ones; one directory per set"""
    def put(name, paths):
        t = os.path.join(d, name)
        os.makedirs(t)
        for p in paths:
            shutil.copy(p, t)
    repo = sorted(p for g in ('test', 'example', 'benchmark') for p in glob.glob(os.path.join(build.REPO, g, '**', '*.proto'), recursive=True))
    repo = [p for p in repo if compiles(p)]
    for i, p in enumerate(repo):
        put('repo%d' % i, [p])
    for gs in (('ks2', 'ks3'), ('opt',), ('dflt',)):
        put(gs[-1], sorted({os.path.join(build.SCHEMAS, x + '.proto') for g in gs for x in build.GROUPS[g]}))
    own = os.path.join(build.SCHEMAS, 'c14')
    put('legacy', [own + '/legacy.proto'])
    put('order', [own + '/order_a.proto', own + '/order_b.proto'])
    for i in range(n):
        s = schemagen.Schema('c14 %d/%d' % (seed, i), 'r%d' % i)
        t = os.path.join(d, 'r%d' % i)
        os.makedirs(t)
        for f, x in s.texts.items():
            open(os.path.join(t, f), 'w', newline='').write(x)
    return d


def compiles(p):
    """alone, without files next to it"""
    return not re.search(r'^\s*import\s+(?:public\s+)?"(?!spb\.proto|google/protobuf/descriptor)', open(p, errors='replace').read(), re.M)


def run_env(**kw):
    e = dict(runner.ENV)
    e.update(runner.NO_UAR)
    e.update(kw)
    return e


def c14(prop, tier, seed, t0):
    thorough = tier == 'thorough'
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    res = runner.Result()
    work = build.scratch(prop)
    try:
        flags = ['-O1', '-g1', *build.ASAN]
        base = [build.CXX, '-std=c++20', '-w', '-I' + build.HERE + '/cpp', '-I' + build.REPO + '/include', *flags]
        srcs = ['value.cpp', 'gpb.cpp', 'gen.cpp', 'run.cpp', 'c_compile.cpp']
        own = [os.path.join(work, s + '.o') for s in srcs]
        d = os.path.join(work, 'pc')
        os.makedirs(d)
        cmds, objs = build.compiler_cmds(d, flags, main='spb_protoc_main')
        plain = os.path.join(work, 'plain')
        os.makedirs(plain)
        pcmds, pobjs = build.compiler_cmds(plain, ['-O1', '-g'])
        lim = os.path.join(work, 'limits.cpp')
        bridge.limits_source({}, lim)
        own.append(lim + '.o')
        build.parallel([('limits', [*base, '-c', lim, '-o', lim + '.o'])] + [('harness: ' + s, [*base, '-c', os.path.join(build.HERE, 'cpp', s), '-o', o]) for s, o in zip(srcs, own)] + cmds + pcmds)
        h = os.path.join(work, 'harness')
        exe = os.path.join(work, 'spb-protoc')
        build.parallel([('link of the harness', [build.CXX, *build.ASAN, *own, *objs, *build.GPB_LIBS, '-o', h]),
                        ('link of the proto compiler', [build.CXX, *pobjs, '-o', exe])])
        corpus = os.path.join(work, 'corpus')
        os.makedirs(corpus)
        compiler_corpus(corpus, seed, 60 if thorough else 30)
        cases = int((3000000 if thorough else 60000) * scale)
        r = runner.run_shards(h, prop, cases, seed, work, ['--thorough', '1' if thorough else '0'],
                              total=3000 if thorough else 600, env={**runner.NO_UAR, 'VF_CORPUS': corpus, 'VF_WORK': work, 'VF_SPB': PB})
        separate_runs(work, exe, corpus, res, thorough)
        r.fails += res.fails
        r.inconclusive += res.inconclusive
        r.count.update(res.count)
        return runner.finish(prop, tier, seed, 'exploration', r,
                             'one case = one damaged (cut, byte and token edits, splices, deep nesting, odd numbers, token soup, random bytes) or valid schema or one command line given to the compiler built with ASan and UBSan; '
                             'accepted input is compiled again (alone, together with others, elsewhere) and the outputs compared; distinct = different inputs', t0,
                             assumptions=['every schema of the corpus is valid (also accepted by protoc, except those of the repository tests)'])
    finally:
        build.cleanup(work)


def separate_runs(work, exe, corpus, res, thorough):
    """the real executable: different processes, memory contents, directories and ways to name the files give the same output; valgrind watches uninitialised memory"""
    sets = sorted(os.listdir(corpus))
    sets = sets if thorough else [s for i, s in enumerate(sets) if i % 2 == 0]

    def outputs(d):
        o = {}
        for r, _, fs in os.walk(d):
            for f in fs:
                o[f] = open(os.path.join(r, f), 'rb').read()
        return o

    def one(s):
        src = os.path.join(corpus, s)
        files = sorted(os.listdir(src))
        out = os.path.join(work, 'sep_' + s)
        ways = [
            ('absolute', [exe, '--cpp_out=' + out + '/a', '-I', src, '-I', PB, *[os.path.join(src, f) for f in files]], work, {'MALLOC_PERTURB_': '17'}),
            ('relative', [exe, '--cpp_out', 'b', '-I' + os.path.relpath(src, out), '-I' + PB, *[os.path.relpath(os.path.join(src, f), out) for f in files]], out, {'MALLOC_PERTURB_': '204', 'LC_ALL': 'C.UTF-8'}),
            ('valgrind', ['valgrind', '-q', '--error-exitcode=99', '--track-origins=no', exe, '--cpp_out=' + out + '/c', '--proto_path=' + src, '--proto_path=' + PB,
                          *[os.path.join(src, f) for f in reversed(files)]], work, {}),
        ]
        os.makedirs(out)
        got = []
        for name, argv, cwd, env in ways:
            r = build.run(argv, cwd=cwd, env={**os.environ, **env})
            if r.returncode != 0:
                res.add('process:%s:%s' % (name, s), 'exit code %d: %s' % (r.returncode, r.stdout[:3000]), ' '.join(argv))
                return
            got.append(outputs(os.path.join(out, 'abc'[len(got)])))
            res.count['separate processes'] = res.count.get('separate processes', 0) + 1
        for (name, argv, _, _), g in zip(ways[1:], got[1:]):
            if g != got[0]:
                diff = [f for f in set(g) | set(got[0]) if g.get(f) != got[0].get(f)]
                res.add('process-differs:%s:%s' % (name, s), 'output of the same files differs: %s' % diff, ' '.join(argv))
        shutil.rmtree(out)
    with ThreadPoolExecutor(build.JOBS) as ex:
        list(ex.map(one, sets))


CHECKS['C14'] = c14


import faults  # noqa: E402
CHECKS['C15'] = faults.c15
