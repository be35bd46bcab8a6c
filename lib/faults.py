"""C15: the compiler and input/output failures. One fault at a time, at every system call; limits; awkward files."""
import os, random, re, resource, shutil, signal, subprocess, time
from concurrent.futures import ThreadPoolExecutor

import build, runner, schemagen

PB = build.REPO + '/include/spb/proto'
NOBODY = 65534
# errors of one failing call
CALLS = {
    'openat': ['EACCES', 'EMFILE', 'EIO', 'ENOSPC', 'EROFS'],
    'read': ['EIO', 'EISDIR', 'ESTALE'],
    'write': ['ENOSPC', 'EIO', 'EDQUOT', 'EINTR'],
    'close': ['EIO', 'ENOSPC', 'EDQUOT'],
    'stat': ['EACCES', 'EIO', 'ELOOP'],
    'mkdir': ['EACCES', 'ENOSPC', 'EROFS'],
    'other': ['EIO', 'ENOSPC'],
}
ALIAS = {'open': 'openat', 'creat': 'openat', 'openat2': 'openat', 'readv': 'read', 'pread64': 'read', 'preadv': 'read', 'writev': 'write', 'pwrite64': 'write',
         'pwritev': 'write', 'sendfile': 'write', 'copy_file_range': 'write', 'newfstatat': 'stat', 'fstat': 'stat', 'lstat': 'stat', 'statx': 'stat',
         'access': 'stat', 'faccessat': 'stat', 'faccessat2': 'stat', 'readlink': 'stat', 'readlinkat': 'stat', 'getcwd': 'stat', 'mkdirat': 'mkdir'}
OTHER = ['lseek', 'rename', 'renameat', 'renameat2', 'unlink', 'unlinkat', 'fsync', 'fdatasync', 'ftruncate', 'fallocate', 'link', 'linkat', 'symlink',
         'getdents64', 'fcntl', 'utimensat', 'chmod', 'fchmod', 'mmap']
TRACE = sorted(set(CALLS) - {'other'} | set(ALIAS) | set(OTHER))


class Scene:
    """a tree of files, a working directory, a command line and directories of outputs; {d} is the directory of the run"""

    def __init__(self, name, files, args, cwd='', dirs=()):
        self.name, self.files, self.args, self.cwd, self.dirs = name, files, args, cwd, dirs
        self.want = None   # outputs of the run without faults
        self.trace = []


def padded(head, parts, mod=4096):
    """a prefix of the file which ends at a multiple of the block size (or of other usual buffers) is a valid file"""
    s = head
    for p in parts:
        end = len(s) + len(p)
        for b in (4096, 8191, 8192):
            nxt = (len(s) // b + 1) * b
            if len(s) < nxt < end + 1:
                s += '\n' * (nxt + 1 - len(s))
        s += p + '\n' * (40 - len(p) % 40)
    return s


def message(i, extra='', n=6):
    return 'message M%d {\n' % i + ''.join('  optional %s field_%d = %d;\n' % (['int32', 'string', 'bytes', 'double'][k % 4], k, k + 1) for k in range(n)) + extra + '}\n'


def scenes(seed, nrandom):
    h = 'syntax = "proto2";\n'
    plain = h + 'package p;\n' + ''.join(message(i) for i in range(3))
    big = padded(h + 'package big;\n', [message(i, '  repeated M%d more = 50;\n' % (i - 1) if i else '') for i in range(60)])
    types = padded(h + 'package types;\n', [message(i) for i in range(50)])
    user = h + 'package user;\nimport "types.proto";\n' + ''.join('message U%d { optional types.M%d m = 1; }\n' % (i, i) for i in range(50))
    opts = h + 'package o;\nimport "spb.proto";\noption (spb_fileopt).max_size = 100;\nmessage A { optional int32 a = 1 [(spb_opt).type = "int8"]; optional string s = 2; enum E { X = 0; Y = 1; } repeated E e = 3 [packed = true]; map<string, int32> m = 4; oneof o { int32 x = 5; string y = 6; } }\n'
    out = [
        Scene('one file', {'in/p.proto': plain}, ['--cpp_out={d}/out', '{d}/in/p.proto'], dirs=['out']),
        Scene('new directory', {'in/p.proto': plain}, ['--cpp_out', '{d}/out/a/b', '{d}/in/p.proto']),
        Scene('large file', {'in/big.proto': big}, ['--cpp_out={d}/out', '{d}/in/big.proto'], dirs=['out']),
        Scene('import', {'lib/types.proto': types, 'in/user.proto': user}, ['--cpp_out={d}/out', '-I{d}/lib', '{d}/in/user.proto'], dirs=['out']),
        Scene('import from the second directory', {'lib/deep/types.proto': types, 'in/user.proto': user, 'other/x.proto': h},
              ['--cpp_out={d}/out', '-I', '{d}/other', '--proto_path={d}/lib/deep', '{d}/in/user.proto'], dirs=['out']),
        Scene('several files', {'in/p.proto': plain, 'in/types.proto': types, 'in/user.proto': user, 'in/sub/o.proto': opts},
              ['--cpp_out=out', '-I.', '-I' + PB, 'p.proto', 'types.proto', 'user.proto', 'sub/o.proto'], cwd='in'),
        Scene('next to the input, outputs exist', {'p.proto': plain, 'p.pb.h': '//' + 'x' * 100000 + '\n', 'p.pb.cc': '//' + 'y' * 100000 + '\n', 'o.proto': opts},
              ['--cpp_out=.', '-I' + PB, 'p.proto', 'o.proto']),
        Scene('through links', {'real/p.proto': plain, 'real/types.proto': types, 'in/user.proto': user, 'in/types.proto': '->../real/types.proto', 'in/p.proto': '->../real/p.proto',
                                'link': '->out'}, ['--cpp_out={d}/link', '-I{d}/in', '{d}/in/user.proto', '{d}/in/p.proto'], dirs=['out']),
    ]
    for i in range(nrandom):
        s = schemagen.Schema('c15 %d/%d' % (seed, i), 'r%d' % i)
        out.append(Scene('random %d' % i, {'in/' + f: t for f, t in s.texts.items()}, ['--cpp_out={d}/out', '-I{d}/in', '-I' + PB, *['{d}/in/' + f for f in sorted(s.texts)]], dirs=['out']))
    return out


class Runner:
    def __init__(self, work, exe, res):
        self.work, self.exe, self.res, self.n = work, exe, res, 0
        self.log = {}

    def fresh(self, scene):
        self.n += 1
        d = os.path.join(self.work, 'runs', '%s_%d_%d' % (re.sub(r'\W', '_', scene.name), self.n, random.getrandbits(40)))
        os.makedirs(d)
        for f, t in scene.files.items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if t.startswith('->'):
                os.symlink(t[2:], p)
            else:
                with open(p, 'w', newline='') as o:
                    o.write(t)
                if f.endswith('.proto') and self.n % 4:
                    t = time.time() - [0, 3600, 1, -3600][self.n % 4]
                    os.utime(p, (t, t))
        for x in scene.dirs:
            os.makedirs(os.path.join(d, x), exist_ok=True)
        return d

    @staticmethod
    def snapshot(d):
        got = {}
        for r, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                k = os.path.relpath(p, d)
                if os.path.islink(p):
                    got[k] = '->' + os.readlink(p)
                    if os.path.exists(p) and not os.path.isfile(p):
                        got[k] = 'special'
                elif os.path.isfile(p):
                    try:
                        got[k] = open(p, 'rb').read()
                    except OSError as e:
                        got[k] = 'unreadable %s' % e
                else:
                    got[k] = 'special'
        return got

    def run(self, scene, strace=None, pre=None, prepare=None, user=None, limit=20, args=None, again=False):
        """-> exit code, stderr, snapshot, the log of strace, inputs changed, directory, (exit code, stderr, snapshot) of a second run without the fault"""
        d = self.fresh(scene)
        undo = None
        try:
            if user is not None:
                for r, ds, fs in os.walk(d):
                    for x in [r] + [os.path.join(r, f) for f in fs]:
                        os.lchown(x, user, user)
            if prepare:
                undo = prepare(d)
            argv = [self.exe] + [a.replace('{d}', d) for a in (args or scene.args)]
            log = d + '.log'
            if strace:
                argv = ['strace', '-f', '--seccomp-bpf', '-y', '-s', '16', '-o', log, *strace, *argv]
            before = self.snapshot(d)
            kw = {}
            if user is not None:
                kw = dict(user=user, group=user, extra_groups=[])
            try:
                r = subprocess.run(argv, cwd=os.path.join(d, scene.cwd), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   text=True, errors='replace', timeout=limit, preexec_fn=pre, restore_signals=False, env={**os.environ, 'LC_ALL': 'C'}, **kw)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', ''
            if undo:
                undo()
            after = self.snapshot(d)
            trace = open(log, errors='replace').read().splitlines() if strace and os.path.exists(log) else []
            changed = [k for k in scene.files if before.get(k) != after.get(k) and k.endswith('.proto')]
            got = {k: v for k, v in after.items() if k not in scene.files or not k.endswith('.proto')}
            second = None
            if again and rc != 'timeout':
                argv = [self.exe] + [a.replace('{d}', d) for a in scene.args]
                try:
                    r = subprocess.run(argv, cwd=os.path.join(d, scene.cwd), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       text=True, errors='replace', timeout=limit, env={**os.environ, 'LC_ALL': 'C'})
                    second = r.returncode, r.stderr, self.snapshot(d)
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
            return rc, err, got, trace, changed, d, second
        finally:
            shutil.rmtree(d, ignore_errors=True)
            if os.path.exists(d + '.log'):
                os.unlink(d + '.log')

    def judge(self, scene, what, result, must_fail=False, silent=False, final=lambda k: k, must_succeed=False):
        """the oracle: success means that every output is complete, failure comes with a message, inputs are as before"""
        rc, err, got, trace, changed, d, second = result
        self.res.count['cases'] = self.res.count.get('cases', 0) + 1
        k = 'failures reported' if rc != 0 else 'faults survived with complete output'
        self.res.count[k] = self.res.count.get(k, 0) + 1
        key = '%s:%s' % (scene.name, what)
        rep = 'scene "%s": %s; spb-protoc %s' % (scene.name, what, ' '.join(scene.args))
        tail = '\n'.join(trace[-12:])
        if changed:
            self.res.add('input-changed:' + key, 'input files changed: %s\n%s' % (changed, tail), rep)
        if rc == 'timeout':
            self.res.inconclusive.append('%s: no end after the time limit' % key)
            return 'timeout'
        if rc < 0 or rc > 125:
            self.res.add('crash:' + key, 'exit code %s, %s\n%s' % (rc, err[:500], tail), rep)
            return
        if must_succeed and rc != 0:
            self.res.add('fails:' + key, 'exit code %s, %s' % (rc, err[:500]), rep)
        if rc == 0:
            missing = [f for f in scene.want if f not in got]
            wrong = [f for f in scene.want if f in got and got[f] != scene.want[f] and not (isinstance(scene.want[f], bytes) and isinstance(got[f], str) and got[f].startswith('->'))]
            special = [f for f in scene.want if isinstance(got.get(f), str) and isinstance(scene.want[f], bytes)]
            if missing or wrong or special:
                self.res.add('silent:' + key, 'exit code 0, but the output is not complete: missing %s, different %s, not a file %s\n%s' % (
                    missing, [(f, len(scene.want[f]), len(got[f]) if f in got else None) for f in wrong], special, tail), rep)
            elif must_fail:
                self.res.add('unreported:' + key, 'exit code 0 after a failure\n%s' % tail, rep)
        elif not err.strip() and not silent:
            self.res.add('no-message:' + key, 'exit code %d without a message\n%s' % (rc, tail), rep)
        if second:
            self.res.count['runs again after the fault'] = self.res.count.get('runs again after the fault', 0) + 1
            rc2, err2, after = second
            bad = [f for f in scene.want if after.get(f) != scene.want[f] and not (isinstance(after.get(f), str) and after[f].startswith('->'))]
            if rc2 != 0:
                self.res.add('again:' + key, 'run again without the fault, in the same directory: exit code %s, %s\n%s' % (rc2, err2[:500], tail), rep)
            elif bad:
                self.res.add('again:' + key, 'run again without the fault, in the same directory: exit code 0, but the output is not complete: %s\n%s' % (
                    [(f, len(scene.want[f]), len(after[f]) if f in after else None) for f in bad], tail), rep)


def injected(trace):
    for l in trace:
        if '(INJECTED)' in l:
            return l
    return None


def kind(call):
    return ALIAS.get(call, call if call in CALLS else 'other')


def c15(prop, tier, seed, t0):
    thorough = tier == 'thorough'
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    res = runner.Result()
    work = build.scratch(prop)
    rnd = random.Random('c15 %d' % seed)
    try:
        os.chmod(work, 0o755)
        try:
            exe = build.build_compiler(work, ('-O1', '-g1'), link=('-static',))
        except build.BuildError as e:
            if not str(e).startswith('link'):
                raise
            exe = build.build_compiler(work, ('-O1', '-g1'), name='spb-protoc-dynamic')
        run = Runner(work, exe, res)
        all_scenes = scenes(seed, 40 if thorough else 6)
        for s in all_scenes:
            r = run.run(s, strace=['-e', 'trace=' + ','.join('?' + c for c in TRACE)])
            if not any(re.search(r'exited with', l) for l in r[3]):
                res.inconclusive.append('strace does not work here: %s' % r[1][:300])
                r = run.run(s)
            if r[0] != 0:
                res.add('baseline:' + s.name, 'a valid schema is not compiled: %s %s' % (r[0], r[1][:1000]), s.name)
                return finish(prop, tier, seed, res, t0)
            s.want = {f: v for f, v in r[2].items() if f.endswith(('.pb.h', '.pb.cc'))}
            n = sum(a.endswith('.proto') for a in s.args)
            if len(s.want) != 2 * n or not all(isinstance(v, bytes) and len(v) > 100 for v in s.want.values()) or r[4]:
                res.add('baseline:' + s.name, 'exit code 0, but outputs are %s of %d inputs, inputs changed: %s' % ({f: len(v) for f, v in s.want.items()}, n, r[4]), s.name)
                return finish(prop, tier, seed, res, t0)
            s.trace = [m for m in (re.match(r'\d+\s+(\w+)\((.*)', l) for l in r[3]) if m]
        jobs = []
        fault_jobs(jobs, run, all_scenes, thorough, rnd, res)
        limit_jobs(jobs, run, all_scenes, thorough, rnd)
        file_jobs(jobs, run, all_scenes)

        def attempt(j):
            if j() == 'timeout':   # once more
                if j() == 'timeout':
                    res.add('hang:' + res.inconclusive[-1], 'no end after the time limit, twice', '')
        with ThreadPoolExecutor(build.JOBS) as ex:
            for f in [ex.submit(attempt, j) for j in jobs]:
                f.result()
        return finish(prop, tier, seed, res, t0)
    finally:
        build.cleanup(work)


def finish(prop, tier, seed, res, t0):
    return runner.finish(prop, tier, seed, 'fault_enumeration', res,
                         'one case = one run of the compiler with one fault: the k-th call of a system call fails (every k, several errors, once or from then on), a file size or descriptor limit, '
                         'closed standard streams, or an awkward file in the place of an input, import or output; distinct = different (scene, fault)', t0,
                         assumptions=['strace reports the failed call to the program as the kernel would', 'a call which strace makes fail is not executed'])


def note(res, scene, what):
    from special import digest
    res.hashes.add(digest(scene.name, what))
    if len(res.samples) < 12 and len(res.hashes) % 97 == 1:
        res.samples.append('%s: %s' % (scene.name, what))


def fault_jobs(jobs, run, all_scenes, thorough, rnd, res):
    for s in all_scenes:
        seen = {}
        for m in s.trace:
            call = m.group(1)
            seen[call] = seen.get(call, 0) + 1
            k = seen[call]
            if call == 'mmap' and '.proto' not in m.group(2) and '.pb.' not in m.group(2):
                continue
            if call == 'fcntl' and not thorough:
                continue
            res.count['system calls of the runs without faults'] = res.count.get('system calls of the runs without faults', 0) + 1
            errors = CALLS[kind(call)]
            if not thorough:
                errors = [errors[(k + i) % len(errors)] for i in range(2 if kind(call) in ('stat', 'other') else len(errors))]
            for e in errors:
                jobs.append(lambda s=s, c=call, e=e, k=k: fault(run, s, c, e, '%d' % k))
            if kind(call) in ('openat', 'write', 'close', 'mkdir'):
                jobs.append(lambda s=s, c=call, e=errors[k % len(errors)], k=k: fault(run, s, c, e, '%d+' % k))


def fault(run, s, call, error, when):
    what = '%s %s fails with %s' % (call, when, error)
    r = run.run(s, strace=['-e', 'trace=' + ','.join('?' + c for c in TRACE), '-e', 'inject=%s:error=%s:when=%s' % (call, error, when)], again=True)
    trace = r[3]
    line = injected(trace)
    if not line:
        run.res.count['faults not reached'] = run.res.count.get('faults not reached', 0) + 1
        return None
    note(run.res, s, what)
    c = 'faults in ' + kind(call)
    run.res.count[c] = run.res.count.get(c, 0) + 1
    must = False
    m = re.search(r'(\w+)\(\d+<([^>]*)>', line)
    if m:
        written = {re.search(r'= \d+<([^>]*)>', l).group(1) for l in trace if re.search(r'open\w*\(.*O_(WRONLY|RDWR).*= \d+<', l)}
        if kind(call) == 'close' and m.group(2) in written and error != 'EINTR':
            must = True          # what close() reports is lost data
        if kind(call) == 'read' and error == 'EIO' and m.group(2).startswith(r[5] + '/') and m.group(2).endswith('.proto'):
            must = True          # what was not read is not known (imports of spb.proto and descriptor.proto may fail)
    # the message itself may be what cannot be written
    silent = kind(call) == 'write' and any('(INJECTED)' in l and re.search(r'\w+\(2<', l) for l in trace)
    return run.judge(s, what, r, must_fail=must, silent=silent)


# ------------------------------------------------------------------ limits

def no_signal():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)


def limit_jobs(jobs, run, all_scenes, thorough, rnd):
    def fsize(s, n, ignore=True):
        def pre():
            if ignore:
                no_signal()
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        what = 'files limited to %d bytes' % n
        note(run.res, s, what)
        run.res.count['file size limits'] = run.res.count.get('file size limits', 0) + 1
        return run.judge(s, what, run.run(s, pre=pre, again=True), must_fail=n < max(len(v) for v in s.want.values()))

    def nofile(s, n):
        what = 'at most %d descriptors' % n
        note(run.res, s, what)
        return run.judge(s, what, run.run(s, pre=lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (n, n))), must_fail=n <= 3)

    def closed(s, fds, args=None, must=False):
        def pre():
            for f in fds:
                os.close(f)
        what = 'descriptors %s closed%s' % (fds, ' and an input missing' if must else '')
        note(run.res, s, what)
        return run.judge(s, what, run.run(s, pre=pre, args=args), silent=2 in fds, must_fail=must)

    for s in all_scenes:
        sizes = {len(v) for v in s.want.values()}
        ns = {0, 1, max(sizes)}
        for z in sizes:
            ns |= {z - 1, z, z + 1} | {b for b in range(4096, z + 4096, 4096)} | {rnd.randrange(z) for _ in range(40 if thorough else 4)}
            ns |= {z - 4096, z // 4096 * 4096 - 1, z // 4096 * 4096 + 1, 8191, 8192, 511, 512, 1023, 1024}
        ns = sorted(n for n in ns if 0 <= n <= max(sizes) + 1)
        if not thorough and len(ns) > 40:
            keep = {0, 1} | {z + k for z in sizes for k in (-1, 0, 1)}
            ns = sorted(keep & set(ns) | set(rnd.sample(ns, 30)))
        for n in ns:
            jobs.append(lambda s=s, n=n: fsize(s, n))
        for n in (3, 4, 5):
            jobs.append(lambda s=s, n=n: nofile(s, n))
        for fds in ((0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)):
            jobs.append(lambda s=s, f=fds: closed(s, f))
            jobs.append(lambda s=s, f=fds: closed(s, f, s.args + ['nosuchfile.proto'], True))


# ------------------------------------------------------------------ awkward files

def file_jobs(jobs, run, all_scenes):
    def case(s, what, prepare, user=None, must=True, args=None):
        def job():
            note(run.res, s, what)
            run.res.count['awkward files'] = run.res.count.get('awkward files', 0) + 1
            return run.judge(s, what, run.run(s, prepare=prepare, user=user, args=args), must_fail=must)
        jobs.append(job)

    def replace(p, how):
        def prepare(d):
            x = os.path.join(d, p)
            if os.path.isdir(x) and not os.path.islink(x):
                shutil.rmtree(x)
            elif os.path.lexists(x):
                os.unlink(x)
            os.makedirs(os.path.dirname(x), exist_ok=True)
            how(x)
        return prepare

    def mode(p, m):
        def prepare(d):
            os.chmod(os.path.join(d, p), m)
            return lambda: os.chmod(os.path.join(d, p), 0o755)
        return prepare

    def leave(f, content, age):
        def prepare(d):
            x = os.path.join(d, f)
            os.makedirs(os.path.dirname(x), exist_ok=True)
            if os.path.islink(x):
                os.unlink(x)
            with open(x, 'wb') as o:
                o.write(content)
            t = time.time() - age
            os.utime(x, (t, t))
        return prepare

    def together(*how):
        def prepare(d):
            for h in how:
                h(d)
        return prepare

    def obsolete(s, what, how):
        def job():
            note(run.res, s, what)
            run.res.count['outputs of an earlier run'] = run.res.count.get('outputs of an earlier run', 0) + 1
            return run.judge(s, what, run.run(s, prepare=how), must_fail=False, must_succeed=True)
        jobs.append(job)

    for s in all_scenes:
        outs = sorted(s.want)
        for f in outs:
            w = s.want[f]
            for name, content in (('empty', b''), ('cut', w[:len(w) // 2]), ('longer', w + b'//' + b'z' * 9000 + b'\n'), ('of the same size', w[:-2] + b'??'), ('complete', w)):
                age = [0, 1000, -1000, 100000][(len(w) + len(name)) % 4]
                obsolete(s, '%s exists, %s' % (f, name), leave(f, content, age))
        for name, change in (('older schema', lambda w: w.replace(b'p', b'q')), ('nothing', lambda w: b''), ('complete', lambda w: w)):
            for age in (-1000, 100000):
                obsolete(s, 'all outputs exist, %s, %d s old' % (name, age), together(*[leave(f, change(s.want[f]), age) for f in outs]))

    nothing = lambda x: None
    ways = [('is missing', nothing), ('is a directory', os.mkdir), ('is a dangling link', lambda x: os.symlink('nowhere', x)), ('is a link to itself', lambda x: os.symlink(os.path.basename(x), x)),
            ('is a link to a directory', lambda x: os.symlink('/', x)), ('is under a file', None)]
    for s in all_scenes:
        protos = [f for f in s.files if f.endswith('.proto') and f != 'other/x.proto']
        for f in protos:
            if s.files[f].startswith('->') or s.name == 'through links':
                continue
            for w, how in ways:
                if how:
                    case(s, '%s %s' % (f, w), replace(f, how))
            case(s, f + ' is not readable', mode(f, 0), NOBODY)
            d = os.path.dirname(f)
            if d:
                case(s, 'directory %s is not searchable' % d, mode(d, 0o600), NOBODY, must=s.cwd != d)
        for k in range(len(s.args)):
            if s.args[k].endswith('.proto'):
                case(s, 'argument %d does not exist' % k, lambda d: None, args=s.args[:k] + [s.args[k][:-6] + '/x.proto'] + s.args[k + 1:])
        for f in sorted(s.want):
            o = 'link' if s.name == 'through links' else None
            if f.startswith('link/'):
                continue

            def put(p, how):
                def prepare(d):
                    x = os.path.join(d, p)
                    os.makedirs(os.path.dirname(x), exist_ok=True)
                    if os.path.lexists(x):
                        os.unlink(x)
                    how(x)
                return prepare
            case(s, 'output %s is a directory' % f, put(f, os.mkdir))
            case(s, 'output %s is on a full device' % f, put(f, lambda x: os.symlink('/dev/full', x)), must=False)
            case(s, 'output %s is a link into a missing directory' % f, put(f, lambda x: os.symlink('no/such/dir/x', x)), must=False)

            def readonly(x):
                open(x, 'w').write('old')
                os.chmod(x, 0o444)
            case(s, 'output %s is read-only' % f, put(f, readonly), NOBODY, must=False)
            d = os.path.dirname(f)
            if d and d != '.' and not any(x.startswith(d + '/') for x in s.files):
                def isfile(x):
                    open(x, 'w').write('a file')
                case(s, 'output directory %s is a file' % d, replace(d, isfile))

                def ro(x):
                    os.mkdir(x)
                    os.chmod(x, 0o555)
                case(s, 'output directory %s is read-only' % d, replace(d, ro), NOBODY)
                case(s, 'output directory %s is a dangling link' % d, replace(d, lambda x: os.symlink('nowhere', x)), must=False)
