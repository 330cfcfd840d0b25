"""Building the driver from /repo's working tree, running scripts on it and
validating the recorded histories with TLC."""
import concurrent.futures as cf
import copy, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PIGO_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery could not do its work (never a verdict)."""


class BuildError(Exception):
    """The code under test does not compile in this configuration."""


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%d-%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, env=e, cwd=cwd)


WRAPPED = ('malloc calloc realloc free memcpy memmove memset memcmp memchr strlen mmap munmap '
           'pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock').split()


# what harness/faults.cpp can make fail
FAULTY = ('malloc calloc realloc free aligned_alloc posix_memalign open open64 __open_2 __open64_2 fopen fopen64 '
          'fdopen fseek fseeko fseeko64 ftell ftello ftello64 fputc putc fwrite fflush fclose close lseek lseek64 '
          'fstat stat ftruncate ftruncate64 posix_fallocate fallocate pwrite pread mmap mmap64 madvise posix_madvise').split()


class Build:
    """A driver binary: cfgs is a list of (config, flags mask, extra defines)."""

    def __init__(self, work, cfgs, name='drv', cxx='g++', std='c++11', opt='-O1', omp=True,
                 include=None, header=None, extra=(), link=(), more_objs=(), sched=False, faults=False):
        self.work, self.cfgs, self.name = work, cfgs, name
        self.dir = os.path.join(work.dir, 'build-' + name)
        os.makedirs(self.dir, exist_ok=True)
        self.base = [cxx, '-std=' + std, opt, '-w', '-g0']
        if omp:
            self.base.append('-fopenmp')
        self.base += ['-I', HARNESS, '-I', include or os.path.join(REPO, 'include')]
        if header:
            self.base.append('-DPIGO_HEADER="%s"' % header)
        self.base += list(extra)
        self.sched = sched
        if sched:                       # our own OpenMP runtime and recorder: sched.cpp
            self.base += ['-fsanitize=thread', '-DVERIF_SCHED', '-g']
            link = ['-Wl,' + ','.join('--wrap=' + f for f in WRAPPED)]
            more_objs = [os.path.join(self.dir, 'sched.o')]
        self.faults = faults
        if faults:                      # resources that fail: faults.cpp
            self.base += ['-DVERIF_FAULTS']
            link = ['-Wl,' + ','.join('--wrap=' + f for f in FAULTY)]
            more_objs = [os.path.join(self.dir, 'faults.o')]
        self.link, self.more = list(link), list(more_objs)
        self.omp = omp
        self.bin = os.path.join(self.dir, 'driver')

    def plain(self):
        """The same with the usual OpenMP runtime (for constructs that sched.cpp lacks)"""
        self.base = [x for x in self.base if x not in ('-fsanitize=thread', '-DVERIF_SCHED')]
        self.sched, self.link, self.more = False, [], []

    def jobs(self):
        for i, c in enumerate(self.cfgs):
            cfg, flags, extra = (list(c) + [[]])[:3] if len(c) < 3 else c
            yield (self.base + ['-DCFG=%d' % cfg, '-DFLAGS=%d' % flags] + list(extra)
                   + ['-c', os.path.join(HARNESS, 'cfg.cpp'), '-o', os.path.join(self.dir, 'c%d.o' % i)])
        yield self.base + ['-c', os.path.join(HARNESS, 'main.cpp'), '-o', os.path.join(self.dir, 'main.o')]
        if self.sched:
            yield [self.base[0], '-std=c++11', '-O2', '-w', '-g', '-fno-builtin-memcpy', '-c', os.path.join(HARNESS, 'sched.cpp'),
                   '-o', os.path.join(self.dir, 'sched.o')]

        if self.faults:
            yield [self.base[0], '-std=c++11', '-O1', '-w', '-c', os.path.join(HARNESS, 'faults.cpp'),
                   '-o', os.path.join(self.dir, 'faults.o')]

    def link_cmd(self):
        objs = [os.path.join(self.dir, 'c%d.o' % i) for i in range(len(self.cfgs))]
        return ([self.base[0]] + (['-fopenmp'] if self.omp and not self.sched else []) + objs
                + [os.path.join(self.dir, 'main.o')] + self.more + self.link + ['-o', self.bin])


def build_all(builds):
    def one(cmd):
        r = sh(cmd, timeout=600)
        if r.returncode != 0:
            raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[:3000])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, [j for b in builds for j in b.jobs()]))
        again = []
        for b, q in zip(builds, ex.map(lambda b: sh(b.link_cmd(), timeout=600), builds)):
            if q.returncode and b.sched and b'undefined reference' in q.stdout:
                again.append(b)
            elif q.returncode:
                raise BuildError(q.stdout.decode(errors='replace')[:3000])
        for b in again:
            b.plain()
        list(ex.map(one, [j for b in again for j in b.jobs()]))
        list(ex.map(one, [b.link_cmd() for b in again]))


# ---------------------------------------------------------------------------
class Scenario:
    """ops: list of lines; mode: small | wide | raw"""
    __slots__ = ('ops', 'mode', 'label')

    def __init__(self, ops, mode='small', label=''):
        self.ops, self.mode, self.label = ops, mode, label

    def text(self, pre=()):
        return '\n'.join(['scenario x ' + self.mode] + list(pre) + self.ops + ['end']) + '\n'


class Run:
    """One execution of a scenario: events as raw JSON lines, or how it broke."""
    __slots__ = ('scn', 'pre', 'build', 'events', 'broken', 'env', 'mem')

    def __init__(self, scn, pre, build, events, env=None, mem=()):
        self.scn, self.pre, self.build, self.events, self.env, self.mem = scn, pre, build, events, env, mem


def whole(line):
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


def parse_log(data, mem=None):
    """-> {scenario index: [events]}, the scenario that broke off (or None)"""
    out, cur, partial = {}, None, None
    text = data.decode('latin-1')
    for line in text.split('\n'):
        if line.startswith('#S '):
            cur = int(line[3:])
            out[cur] = []
        elif line.startswith('#E') or line.startswith('#DONE'):
            cur = None if line.startswith('#E') else cur
            if line.startswith('#DONE'):
                return out, None, None
        elif line.startswith('#CRASH'):
            return out, cur, 'CRASH'
        elif line.startswith('#HANG'):
            return out, cur, 'HANG'
        elif line.startswith('#M '):
            if cur is not None and mem is not None:
                mem.setdefault(cur, []).append(line[3:])
        elif line.startswith('#BAD'):
            raise ToolError('driver: ' + line)
        elif line and cur is not None:
            out[cur].append(line)
    return out, cur, 'CRASH'            # ended without a word


def run_batch(build, scns, pre, work, env, op_seconds):
    """Runs scenarios in one process (several if it breaks); list of Run."""
    d = work.path('scratch')
    os.makedirs(d)
    script = work.path('script')
    with open(script, 'w') as f:
        for s in scns:
            f.write(s.text(pre))
    runs, mem = {}, {}
    first = 0
    e = {'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0', 'VERIF_OP_SECONDS': str(op_seconds),
         'OMP_DYNAMIC': 'false', 'VERIF_MEMORY_MB': '3500', 'MALLOC_ARENA_MAX': '4'}
    e.update(env or {})
    while first < len(scns):
        log = work.path('log')
        try:
            sh([build.bin, script, log, d, str(first)], timeout=op_seconds * 4 + 600, env=e)
        except subprocess.TimeoutExpired:
            pass
        data = open(log, 'rb').read() if os.path.exists(log) else b''
        if not data:
            raise ToolError('driver does not start')
        out, cur, how = parse_log(data, mem)
        os.unlink(log)
        for i, ev in out.items():
            runs[i] = ev
        if how is None:
            break
        if cur is None:                 # between scenarios: releasing the objects
            cur = max(out) if out else first
            runs[cur] = runs.get(cur, []) + ['{"op":"end","err":"%s"}' % how]
        else:
            ev = runs.get(cur, [])
            if not ev or whole(ev[-1]):
                ev.append('{"op":"?","err":"%s"}' % how)
            elif whole(ev[-1] + ',"err":"%s"}' % how):
                ev[-1] += ',"err":"%s"}' % how
            else:
                ev[-1] = '{"op":"?","err":"%s"}' % how
            runs[cur] = ev
        first = cur + 1
    shutil.rmtree(d, ignore_errors=True)
    os.unlink(script)
    return [Run(s, pre, build, runs[i], env, mem.get(i, ())) for i, s in enumerate(scns)]


def execute(work, build, scns, threads=(1,), pre_of=None, op_seconds=20, procs=None, envs=None):
    """Every scenario with every team size (and environment); list of Run."""
    procs = procs or NCPU
    jobs = []
    for env in (envs or [None]):
        for t in threads:
            pre = ['T %d' % t] if t else []
            size = max(1, min(400, (len(scns) + procs - 1) // procs))
            for a in range(0, len(scns), size):
                jobs.append((scns[a:a + size], pre, env))
    res = []
    with cf.ThreadPoolExecutor(procs) as ex:
        for r in ex.map(lambda j: run_batch(build, j[0], j[1], work, j[2], op_seconds), jobs):
            res += r
    return res


# ---------------------------------------------------------------------------
MODES = {'small': 'int', 'wide': 'wide', 'raw': 'raw'}


class Validator:
    """Validates distinct histories against the specification."""

    def __init__(self, work):
        self.work = work
        self.seen = {}              # key -> first Run
        self.total = 0
        self.cut = 0                # histories cut before an event too large to read
        self.events = 0
        self.states = 0
        self.transitions = 0
        self.pending = []

    LARGEST = 12 << 20          # bytes of an event that are read into TLC

    def add(self, run):
        self.total += 1
        for i, e in enumerate(run.events):
            if len(e) > self.LARGEST:       # a damaged size that memory was there for
                run = copy.copy(run)
                run.events = run.events[:i]
                self.cut += 1
                break
        key = hashlib.sha256((run.scn.mode + '\n' + '\n'.join(run.events)).encode('latin-1')).digest()
        if key in self.seen:
            return
        self.seen[key] = run
        self.pending.append(run)

    def check(self, jvms=4, module='PigoTrace', timeout=800):
        """Validates what is pending; list of (run, event number)."""
        runs, self.pending = self.pending, []
        if not runs:
            return []
        # balance by size
        order = sorted(range(len(runs)), key=lambda i: -sum(map(len, runs[i].events)))
        total = sum(len(x) for r in runs for x in r.events)
        jvms = max(1, min(jvms, total // 200000 + 1, len(runs)))
        parts = [[] for _ in range(jvms)]
        for n, i in enumerate(order):
            parts[n % jvms].append(i)
        rej = []
        with cf.ThreadPoolExecutor(jvms) as ex:
            for st, tr, rj in ex.map(lambda p: self._tlc(runs, p, module, max(1, NCPU // jvms), timeout), parts):
                self.states += st
                self.transitions += tr
                rej += rj
        for r in runs:
            self.events += len(r.events)
        return [(runs[i], n) for i, n in rej]

    def _tlc(self, runs, part, module, workers, timeout):
        f = self.work.path('traces.ndjson')
        with open(f, 'w', encoding='latin-1') as o:
            for i in part:
                o.write('{"id":%d,"mode":"%s","ev":[%s]}\n'
                        % (i, MODES[runs[i].scn.mode], ','.join(runs[i].events)))
        out = tlc(self.work, module, workers=workers, env={'TRACES': f}, timeout=timeout)
        os.unlink(f)
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states', out, re.M)
        if 'Model checking completed. No error' not in out or not m:
            raise ToolError('TLC: ' + out[-3000:])
        rej = [(int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', out)]
        expected = sum(len(runs[i].events) for i in part) + len(part)
        got = int(m[-1][1])
        if not rej and got != expected:
            raise ToolError('TLC visited %d states instead of %d' % (got, expected))
        return got, int(m[-1][0]) - len(part), rej


def tlc(work, module, cfg=None, workers=4, env=None, timeout=800, args=(), heap='4g'):
    meta = work.path('meta')
    cmd = ['java', '-Xss512m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
           '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-config', cfg or (module + '.cfg'), '-noGenerateSpecTE'] + list(args) + [module + '.tla']
    try:
        r = sh(cmd, timeout=timeout, env=env, cwd=SPEC)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC took too long on ' + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.stdout.decode(errors='replace')
