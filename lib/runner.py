"""Shards, verdicts, known findings, evidence."""
import array, json, os, re, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import build

HERE = build.HERE
ENV = dict(os.environ)
ENV.update({
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=86:detect_leaks=1:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'LSAN_OPTIONS': 'exitcode=87',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:second_deadlock_stack=1',
    'LC_ALL': 'C',
})
# looking for a fake stack frame gets slower with every exception
NO_UAR = {'ASAN_OPTIONS': ENV['ASAN_OPTIONS'].replace('use_after_return=1', 'use_after_return=0')}


class Result:
    def __init__(self):
        self.fails = []      # {key, detail, replay}
        self.count = {}
        self.hashes = set()
        self.samples = []
        self.inconclusive = []

    def add(self, key, detail, replay=''):
        self.fails.append({'key': key, 'detail': detail, 'replay': replay})

    @property
    def distinct(self):
        return len(self.hashes)

    def merge_out(self, path):
        try:
            d = json.load(open(path))
        except (OSError, ValueError):
            return False
        for k, v in d['count'].items():
            self.count[k] = self.count.get(k, 0) + v
        try:
            self.hashes.update(array.array('Q', open(path + '.h', 'rb').read()))
        except OSError:
            pass
        self.samples += d['samples'][:1]
        return True


def crash_key(err, rc):
    m = re.search(r'SUMMARY: (\w+): (\S+)', err)
    what = '%s:%s' % (m.group(1), m.group(2)) if m else 'exit-%d' % rc
    m = re.search(r'runtime error: ([^\n]*)', err)
    if m:
        what = 'UndefinedBehavior:' + re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:60]
    # innermost frame of the library or of generated code
    for f in re.findall(r'#\d+ 0x[0-9a-f]+ in (.*?) (?:/\S+)', err):
        if 'spb::' in f or 'spb-proto' in f:
            return what + ':' + re.sub(r'[<(].*', '', f)[:80]
    return what


def run_shards(exe, cmd, n, seed, work, args=(), shards=None, limit=20, total=800, env=None):
    """runs n cases in several processes; returns a Result"""
    shards = shards or build.JOBS
    res = Result()
    e = dict(ENV)
    if env:
        e.update(env)
    deadline = time.time() + total
    base = [exe, cmd, '--seed', str(seed), '--n', str(n), '--shards', str(shards), '--limit', str(limit), *args]

    def status(path):
        try:
            b = open(path, 'rb').read().split(b'\0', 1)[0]
            i, _, what = b.partition(b'\n')
            return int(i), what.decode('latin1')
        except (OSError, ValueError):
            return None, ''

    def one(k):
        start, crashes = 0, 0
        while True:
            st, out = os.path.join(work, '%s.%d.st' % (cmd, k)), os.path.join(work, '%s.%d.json' % (cmd, k))
            for p in (st, out):
                if os.path.exists(p):
                    os.unlink(p)
            argv = base + ['--shard', str(k), '--start', str(start), '--status', st, '--out', out]
            try:
                p = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e,
                                   timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                res.inconclusive.append('shard %d of %s ran out of time' % (k, cmd))
                return
            so, se = p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
            for line in so.splitlines():
                if line.startswith('FAIL '):
                    f = json.loads(line[5:])
                    res.add(f['key'], f['detail'], 'case %d seed %d: %s' % (f['case'], seed, ' '.join(base[1:] + ['--case', str(f['case'])])))
            res.merge_out(out)
            if p.returncode in (0, 1):
                return
            if p.returncode == 3:
                raise RuntimeError('harness error: ' + se[-2000:])
            i, what = status(st)
            if i is None:
                raise RuntimeError('harness died before the first case: rc %d %s' % (p.returncode, se[-2000:]))
            replay = 'case %d seed %d: %s\n%s' % (i, seed, ' '.join(base[1:] + ['--case', str(i)]), what[:60000])
            if p.returncode == 77:  # watchdog: only believed when it happens again, alone, with much more time
                alone = base + ['--case', str(i)]
                alone[alone.index('--limit') + 1] = str(limit * 4)
                q = subprocess.run(alone, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
                if q.returncode == 77:
                    res.add('hang:%s:%s' % (cmd, what.split(' ')[1] if ' ' in what else ''), 'no end after %d s: %s' % (limit * 4, what[:300]), replay)
                else:
                    res.inconclusive.append('case %d was slow once' % i)
            else:
                tname = what.split(' ')[1] if ' ' in what else ''
                res.add('crash:%s:%s:%s' % (cmd, tname, crash_key(se, p.returncode)), se[:3000], replay)
            crashes += 1
            if crashes >= 2:
                return
            start = i + 1

    with ThreadPoolExecutor(shards) as ex:
        for f in [ex.submit(one, k) for k in range(shards)]:
            f.result()
    return res


def known(prop):
    keys = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+)\s*(.*)', line)
            if m and m.group(1) == prop:
                keys.append((m.group(2), m.group(3)))
    return keys


def finish(prop, tier, seed, level, res, rule, t0, extra=None, assumptions=(), evaluations=None):
    """prints the verdict, writes the evidence file and returns the exit code"""
    listed = dict(known(prop))
    seen_known, new = {}, {}
    for f in res.fails:
        (seen_known if f['key'] in listed else new).setdefault(f['key'], f)
    rd = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rd, exist_ok=True)
    for f in os.listdir(rd):
        if f.startswith(prop + '_'):
            os.unlink(os.path.join(rd, f))
    for k, text in listed.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, text or k))
    for i, (k, f) in enumerate(sorted(new.items())):
        path = os.path.join(rd, '%s_%d.txt' % (prop, i))
        with open(path, 'w') as o:
            o.write('property: %s\nkey: %s\nreplay: %s\n\n%s\n' % (prop, k, f['replay'], f['detail']))
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, HERE)))
        print('  key: %s' % k)
        print('  %s' % f['detail'].strip()[:800])
    n = evaluations if evaluations is not None else res.count.get('cases', 0)
    cov = {'evaluations': int(n), 'distinct_nontrivial': int(res.distinct), 'rule': rule, 'samples': res.samples[:12] or ['none'],
           'observed': {k: v for k, v in sorted(res.count.items()) if not k.startswith('type ')},
           'message_types': {k[5:]: v for k, v in sorted(res.count.items()) if k.startswith('type ')}}
    if res.inconclusive:
        cov['inconclusive'] = res.inconclusive[:20]
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new), 'assumptions': list(assumptions)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    if new:
        return 1
    if n == 0:
        print('ERROR: nothing was observed', file=sys.stderr)
        return 2
    print('OK property=%s cases=%d distinct=%d wall=%.1fs' % (prop, n, res.distinct, time.time() - t0))
    return 0
