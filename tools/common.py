"""Shared machinery: builds the conformance driver from /repo's working tree, runs scenarios on it, and has TLC check
the recorded histories against the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
REPLAY = os.path.join(VERIF, 'replay')
EVIDENCE = os.path.join(VERIF, 'evidence')
TLA = '/opt/veriftools/tla/tla2tools.jar'
COMMUNITY = '/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = min(8, os.cpu_count() or 1)
TLC_WORKERS = min(6, JOBS)

FLAGS = {
    'asan': ['-O0', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    'o2': ['-O2'],
    'clang': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
}
COMPILER = {'clang': 'clang++'}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ----------------------------------------------------------------------------------------------------------------
# Building

def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _sources():
    cc, hh = [], []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(('.cc', '.cpp', '.cxx')):
                cc.append(p)
            elif f.endswith(('.h', '.hpp', '.inc', '.hh', '.ipp', '.tcc')):
                hh.append(p)
    return sorted(cc), sorted(hh)


def java_classes():
    """The class directory with the overrides of BigNat and Loops (compiled when missing)."""
    src = [os.path.join(VERIF, 'java', f) for f in ('BigNat.java', 'Loops.java')]
    d = os.path.join(BUILD, 'java-' + _sha(*[_read(s) for s in src]))
    if not os.path.exists(d):
        tmp = d + '.tmp%d' % os.getpid()
        os.makedirs(tmp, exist_ok=True)
        subprocess.run(['javac', '-cp', TLA, '-d', tmp] + src, check=True)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return d


def build(variant='asan'):
    """Compiles the library's sources and the driver; objects are cached by content."""
    flags = ['-std=c++17', '-w', '-I' + os.path.join(REPO, 'src')] + FLAGS[variant]
    cc, hh = _sources()
    harness = os.path.join(VERIF, 'harness', 'harness.cc')
    headers = _sha(*[os.path.relpath(h, REPO).encode() + b'=' + _read(h) for h in hh])
    objdir = os.path.join(BUILD, 'obj-' + variant)
    os.makedirs(objdir, exist_ok=True)
    jobs = []
    for f in cc + [harness]:
        key = _sha(' '.join(flags), headers, os.path.relpath(f, REPO), _read(f))
        jobs.append((f, os.path.join(objdir, key + '.o')))

    def compile_one(job):
        f, o = job
        if os.path.exists(o):
            os.utime(o)
            return None
        tmp = '%s.%d.tmp' % (o, os.getpid())
        r = subprocess.run([COMPILER.get(variant, 'g++')] + flags + ['-c', f, '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            return f + ':\n' + r.stderr[-3000:]
        os.rename(tmp, o)
        return None

    # the driver takes longest
    jobs.sort(key=lambda j: j[0] != harness)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errors = [e for e in ex.map(compile_one, jobs) if e]
    if errors:
        raise CheckError('the driver does not compile:\n' + '\n'.join(errors[:3]))
    objs = [o for _, o in jobs]
    exe = os.path.join(objdir, 'harness-' + _sha(*objs))
    if not os.path.exists(exe):
        tmp = '%s.%d.tmp' % (exe, os.getpid())
        r = subprocess.run([COMPILER.get(variant, 'g++')] + FLAGS[variant] + objs + ['-lpthread', '-o', tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('the driver does not link:\n' + r.stderr[-3000:])
        os.rename(tmp, exe)
    # forget what was not used for long
    def used(f):
        try:
            return os.path.getmtime(f)
        except OSError:       # another run removed it
            return 0.0

    old = sorted((os.path.join(objdir, f) for f in os.listdir(objdir)), key=used)
    for f in old[:-800]:
        try:
            os.remove(f)
        except OSError:
            pass
    return exe


# ----------------------------------------------------------------------------------------------------------------
# Running scenarios on the implementation

ENV = dict(os.environ,
           ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0',
           TSAN_OPTIONS='exitcode=98:halt_on_error=1',
           LC_ALL='C')
# Memory is used again as soon as it is released, and new memory looks different.
REUSE = ENV['ASAN_OPTIONS'] + ':quarantine_size_mb=0:thread_local_quarantine_size_kb=0:malloc_fill_byte=1'
MAX_CRASHES = 6


def _why(rc, err):
    m = re.search(r'SUMMARY: (.*)', err)
    if m:
        return m.group(1)[:200]
    if rc == -14:
        return 'hang (no answer within the time limit)'
    if rc is not None and rc < 0:
        return 'signal %d' % -rc
    return 'exit status %s' % rc + ((': ' + err.strip()[-150:]) if err.strip() else '')


def _run_shard(exe, scenarios, workdir, n, threads=0, stack=None, reuse=False):
    """scenarios: [(id, [cmd, ...])] -> {id: [event, ...]}; a command that does not come back is a "crash" event."""
    out = {}
    todo = scenarios

    def limit():
        resource.setrlimit(resource.RLIMIT_STACK, (stack, resource.getrlimit(resource.RLIMIT_STACK)[1]))

    crashes = 0
    while todo:
        path = os.path.join(workdir, 'in%d' % n)
        with open(path, 'w') as f:
            for sid, cmds in todo:
                f.write('S %s\n' % sid)
                f.write('\n'.join(cmds))
                f.write('\n')
        outp = os.path.join(workdir, 'out%d' % n)
        with open(outp, 'wb') as of:
            r = subprocess.run([exe] + (['-t', str(threads)] if threads else []) + [path], stdout=of,
                               stderr=subprocess.PIPE, env=dict(ENV, ASAN_OPTIONS=REUSE, HARNESS_REUSE='1') if reuse else ENV, cwd=workdir, preexec_fn=limit if stack else None)
        err = r.stderr.decode('latin-1')
        if r.returncode in (90, 91):
            raise CheckError('driver: ' + err[-500:])
        cur = None
        done = False
        with open(outp, 'rb') as f:
            for line in f:
                line = line.rstrip(b'\n')
                if line.startswith(b'S '):
                    cur = line[2:].decode()
                    out[cur] = []
                elif line == b'E':
                    done = True
                else:
                    try:
                        json.loads(line)
                    except ValueError:
                        break
                    out[cur].append(line.decode())
        if done and r.returncode == 0:
            break
        if threads:
            # nothing was printed: the whole run failed
            kind = 'race' if 'data race' in err else 'crash'
            out['threads'] = [json.dumps({'op': kind, 'why': _why(r.returncode, err), 'cmd': 'concurrent run'})]
            break
        if done:
            cur = todo[-1][0]
        if cur is None:
            raise CheckError('driver did not start: ' + _why(r.returncode, err))
        k = [i for i, (sid, _) in enumerate(todo) if sid == cur][0]
        cmds = todo[k][1]
        at = len(out[cur])
        out[cur].append(json.dumps({'op': 'crash', 'why': _why(r.returncode, err), 'cmd': (cmds + ['?'])[min(at, len(cmds))][:300]}))
        todo = todo[k + 1:]
        crashes += 3 if r.returncode == -14 else 1
        if crashes >= MAX_CRASHES:
            break
    return out


def execute(exe, scenarios, workdir, threads=0, stack=None, reuse=False):
    """Runs the scenarios, spread over the cores.  Returns {id: [event json, ...]}."""
    if threads:
        return _run_shard(exe, scenarios, workdir, 0, threads, stack)
    shards = [scenarios[i::JOBS] for i in range(JOBS)]
    out = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(lambda a: _run_shard(exe, a[1], workdir, a[0], 0, stack, reuse), [(i, s) for i, s in enumerate(shards) if s]):
            out.update(r)
    return out


# ----------------------------------------------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.ok = rc == 0 and 'Model checking completed. No error' in out or rc == 0 and m is not None and 'Error:' not in out

    def lines(self, tag):
        return [l for l in self.out.splitlines() if l.startswith('<<"%s"' % tag)]


def tlc(module, cfg=None, env=None, workers=JOBS, heap='6g', override=True, timeout=None, extra=(), specdir=SPEC):
    md = tempfile.mkdtemp(prefix='tlc-')
    cp = [TLA, COMMUNITY]
    if override:
        cp.insert(0, java_classes())
    cmd = ['java', '-Xss64m', '-Djava.io.tmpdir=' + md, '-Xmx' + heap, '-XX:+UseParallelGC', *(['-Xmn%dm' % (int(heap[:-1]) * 512)] if heap.endswith('g') else []), '-cp', ':'.join(cp), 'tlc2.TLC', '-workers',
           str(workers), '-metadir', md, '-noGenerateSpecTE', '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=specdir, env=dict(os.environ, **(env or {})), capture_output=True, text=True,
                           timeout=timeout, errors='replace')
        res = TlcResult(r.returncode, r.stdout + r.stderr, time.time() - t)
    except subprocess.TimeoutExpired as e:
        res = TlcResult(-1, (e.stdout or b'').decode('latin-1') + '\nError: TLC took more than %d s' % timeout, time.time() - t)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return res


VALIDATE_LIMIT = 450     # seconds; none in the thorough tier


VALIDATE_BYTES = 48 << 20      # histories are handed to TLC in lots of about this size


def validate(histories, workdir, heap='8g', aspects=()):
    """Has TLC check the histories [(id, [event json])] against System.  Returns (rejections {id: (index, line)},
    states, transitions)."""
    lots, size = [[]], 0
    for h in histories:
        n = sum(map(len, h[1]))
        if size + n > VALIDATE_BYTES and lots[-1]:
            lots.append([])
            size = 0
        lots[-1].append(h)
        size += n
    rejected, states, transitions = {}, 0, 0
    for lot in lots:
        r = _validate(lot, workdir, heap, aspects)
        rejected.update(r[0])
        states += r[1]
        transitions += r[2]
    return rejected, states, transitions


def _validate(histories, workdir, heap, aspects):
    path = os.path.join(workdir, 'trace.ndjson')
    total = 0
    with open(path, 'w') as f:
        for sid, evs in histories:
            f.write('{"id":"%s","ev":[%s]}\n' % (sid, ','.join(evs)))
            total += len(evs) + 1
    r = tlc('Trace', env=dict({'TRACE': path}, **{a: '1' for a in aspects}), heap=heap, workers=TLC_WORKERS, timeout=VALIDATE_LIMIT)
    rejected = {}
    # PrintT may break long values over several lines
    for m in re.finditer(r'<<\s*"REJECTED",\s*"([^"]*)",\s*(\d+),\s*"expected",(.*?)(?=\n<<\s*"REJECTED"|\nFinished|\nProgress|\nModel check|\Z)', r.out, re.S):
        rejected.setdefault(m.group(1), (int(m.group(2)), ' '.join(m.group(3).split())[:1500]))
    if not r.ok and rejected:
        return rejected, r.distinct, r.generated    # no verdict on the others
    if not r.ok:
        raise CheckError('TLC failed on the recorded histories:\n' + r.out[-3000:])
    skipped = sum(len(evs) - rejected[sid][0] for sid, evs in histories if sid in rejected)
    if r.distinct != total - skipped:
        raise CheckError('TLC found %d states, expected %d' % (r.distinct, total - skipped))
    return rejected, r.distinct, r.generated - len(histories)
