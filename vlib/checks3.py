"""Checks over build configurations and over pipelines."""
import itertools, os, re, shutil, subprocess
from .core import *
from .checks import (Ctx, REGISTRY, check, S, tokens, put, mk, WK, LB, OB, WB, SIGNED_L, lmax, wide_label, wide_weight, wk)
from .checks2 import ten_nums, made, KINDS, TYPES, BINTYPE, GOON, model_histories
from . import gen
from .gen import hx


# ---------------------------------------------------------------------------
def mix(r, k, fl, lite=False):
    """A scenario over everything a configuration offers; fl: its flag sets"""
    w = WK[k]
    goon = [o % k if '%' in o else o for o in GOON]
    x = r.random()
    if x < 0.22:                        # text in
        f = r.choice(fl)
        y = r.random()
        if y < 0.4:
            ops = [put('a', gen.el_text(r, w, r.choice([1, 2, 5, 9]), top=r.choice([3, 12]), noise=0.2) or '\n'),
                   'load A coo %d %d a NONE' % (k, f)]
        elif y < 0.7:
            ops = [put('a.mtx', gen.mm_text(r, w, f, r.choice([0, 1, 3, 6]), noise=0.1)), 'load A coo %d %d a.mtx AUTO' % (k, f)]
        elif y < 0.9:
            ops = [put('a.graph', gen.graph_text(r, r.choice([0, 1, 3, 6]), noise=0.1)), 'load A csr %d 0 a.graph AUTO' % k]
        else:
            ops = [put('a', gen.el_text(r, w, 5, top=6) or '\n'), 'load A csr %d 0 a NONE' % k, 'sort A']
        return ops
    if x < 0.32 and not lite:
        return [put('a', gen.ten_text(r, w, r.choice([1, 2, 3, 4]), r.choice([0, 1, 3, 7]), noise=0.2) or '\n'), 'load A ten %d 0 a NONE' % k,
                'save A s', 'load B ten %d 0 s AUTO' % k, 'write A o', 'load C ten %d 0 o NONE' % k, 'copy D A', 'free A']
    n = r.choice([1, 2, 3, 6])
    A = mk('A', 'coo', k, 0, gen.coo_nums(r, n, r.choice([0, 1, 3, 8, 15]), w, rect=r.random() < 0.3, skew=r.choice([0, 0.8]),
                                          spare=r.choice([0, 0, 2])))
    if x < 0.45:
        return [A, 'save A s', 'load B coo %d 0 s AUTO' % k, 'write A o', 'load C coo %d 0 o EDGE_LIST' % k, 'copy D A', 'tr D', 'asg A D']
    if x < 0.6:
        return [A, 'c2s B A', 'sort B', 'save B s', 'load C csr %d 0 s AUTO' % k, 's2c D C %d' % r.choice([f for f in fl if f in (0, 1, 3)])]
    if x < 0.7 and not lite:
        return [A, 'c2d B A', 'save B s', 'load C dig %d 0 s AUTO' % k, 'c2m E A']
    if x < 0.85:
        C = mk('A', 'csr', k, 0, gen.csr_nums(r, r.choice([1, 2, 5]), 5, w, avg=r.choice([1, 4]), dup=r.choice([0, 0.6]), one=r.random() < 0.2))
        return [C, 'dd B A', 'sort A', 's2c C B 0', 'save B s']
    # failures
    kind = r.choice(['coo', 'csr'] if lite else ['coo', 'csr', 'dig', 'ten'])
    return (['mkdir d'] + made(r, kind, k, 2) + ['save A s', 'cut s %d' % r.randint(1, 60), 'load B %s %d 0 s AUTO' % (kind, k), 'save A nodir/x',
            'load C coo %d 0 missing AUTO' % k, 'load C coo %d 0 d EDGE_LIST' % k] + goon)


def generated_header(c):
    """The single header as the release tool writes it now"""
    d = c.work.path('gen')
    os.makedirs(os.path.join(d, 'release'))
    out = os.path.join(d, 'release', 'pigo.hpp')
    r = sh(['python3', os.path.join(REPO, 'generate_release.py'), out], timeout=120, cwd=REPO)
    if r.returncode != 0 or not os.path.exists(out):
        c.found.append(('the release tool fails: ' + r.stdout.decode(errors='replace')[-600:], None, 0))
        return None
    return out


@check('C21')
def c21(c):
    r = c.r
    B = []

    def bd(name, cfgs, **kw):
        B.append((c.build(name, cfgs, **kw), cfgs))

    lite = ['-DLITE']
    ship = os.path.join(REPO, 'release', 'pigo.hpp')
    made_h = generated_header(c)
    bd('O0', [(0, 9), (17, 1), (16, 1, lite)], std='c++11', opt='-O0', extra=['-D_GLIBCXX_ASSERTIONS'])
    bd('O3', [(0, 255), (13, 1), (4, 1)], std='c++20', opt='-O3', extra=['-funsigned-char'])
    bd('O2', [(2, 9), (14, 1), (12, 1)], std='c++17', opt='-O2')
    bd('serial', [(0, 3), (3, 1), (15, 1)], std='c++11', opt='-O2', omp=False)
    bd('clang', [(1, 3), (2, 1), (16, 1)], cxx='clang++', std='c++14', opt='-O1', omp=False)
    if made_h:
        bd('generated', [(0, 9), (5, 1), (19, 1)], std='c++11', opt='-O1', header=made_h, include='/nonexistent')
        bd('generated-serial', [(1, 1)], std='c++20', opt='-O2', omp=False, header=made_h, include='/nonexistent')
    bd('shipped', [(0, 9), (1, 1), (8, 1)], std='c++17', opt='-O2', header=ship, include='/nonexistent')
    if not c.quick:
        for i, (std, opt, omp, cxx) in enumerate(itertools.product(['c++11', 'c++14', 'c++17', 'c++20'], ['-O0', '-O2', '-O3'], [True, False],
                                                                   ['g++', 'clang++'])):
            if omp and cxx == 'clang++':
                continue
            bd('x%d' % i, [(i % 21, 9), ((i * 7 + 3) % 21, 1)], std=std, opt=opt, omp=omp, cxx=cxx)
    bad = build_each([b for b, _ in B])
    for name, text in bad.items():
        c.found.append(('the library does not build in configuration %s: %s' % (name, text), None, 0))
    for b, cfgs in B:
        if b.name in bad:
            continue
        b_t = (0,) if not b.omp else (1, 3, 8)
        T = []
        for i in range(c.n(170, 1500)):
            q = r.choice(cfgs)
            k, mask = q[0], q[1]
            fl = [f for f in range(8) if mask >> f & 1]
            T.append(S(*mix(r, k, fl, lite=len(q) > 2)))
        c.go(b, T, threads=b_t)
        T = []
        for i in range(c.n(12, 100)):
            T.append(S(*['prim %s %d' % (hx(t) or '-', len(t)) for t in
                         [''.join(r.choice('0011235 \n#%-+.\r\tx') for _ in range(r.randint(0, 14))) for _ in range(8)]], mode='wide'))
        c.go(b, T, threads=b_t[:1])
        # numbers at the ends of their types
        T = []
        for i in range(c.n(25, 250)):
            q = r.choice(cfgs)
            if len(q) > 2:
                continue
            k = q[0]
            t = ''.join(' '.join([str(wide_label(r, k, lmax(k) - 1)), str(wide_label(r, k, lmax(k) - 1))] + wide_weight(r, k)) + '\n' for _ in range(3))
            T.append(S(put('a', t), 'load A coo %d 0 a EDGE_LIST' % k, 'write A o', 'load B ten %d 0 o EDGE_LIST' % k, mode='wide'))
        c.go(b, T, threads=b_t[:2])
    c.validate()


def build_each(builds):
    """Builds all; {name: message} of those that do not build"""
    bad = {}

    def one(x):
        b, cmd = x
        q = sh(cmd, timeout=600)
        if q.returncode != 0:
            bad.setdefault(b.name, ' '.join(cmd)[:600] + '\n' + q.stdout.decode(errors='replace')[:1500])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, [(b, j) for b in builds for j in b.jobs()]))
        list(ex.map(one, [(b, b.link_cmd()) for b in builds if b.name not in bad]))
    return bad


# ---------------------------------------------------------------------------
class ExScn:
    """One run of an example program"""
    mode, label = 'small', ''

    def __init__(self, prog, nm, data, old=None, src=0, dst=0, threads=1):
        self.prog, self.nm, self.data, self.old, self.src, self.dst, self.threads = prog, nm, data, old, src, dst, threads

    def text(self, pre=()):
        return '%s input %s = %s\noutput before: %r src %d dst %d, %d threads\n' % (
            self.prog, self.nm, self.data.hex(), self.old, self.src, self.dst, self.threads)


class ExBuild:
    def __init__(self, cmd):
        self.base = cmd


def run_example(bins, x, d):
    os.makedirs(d, exist_ok=True)
    inp, out = os.path.join(d, x.nm), os.path.join(d, 'out')
    with open(inp, 'wb') as f:
        f.write(x.data)
    for p in (out,):
        if os.path.exists(p):
            os.unlink(p)
    if x.old is not None:
        with open(out, 'wb') as f:
            f.write(x.old)
    args = [bins[x.prog], x.nm] + ([str(x.src), str(x.dst)] if x.prog == 'find' else ['out'])
    env = {'OMP_NUM_THREADS': str(x.threads), 'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0', 'OMP_DYNAMIC': 'false',
           'PATH': os.environ.get('PATH', '')}
    import resource
    def lim():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    crash = False
    try:
        q = subprocess.run(args, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, preexec_fn=lim)
        rc, so = q.returncode, q.stdout
        # an uncaught exception ends the program by SIGABRT
        if rc in (-6, 134):
            rc = -1
        elif rc < 0:
            crash = True
    except subprocess.TimeoutExpired:
        rc, so, crash = -1, b'', True
    says = 'not found' if b'NOT found' in so else 'found' if b'found' in so else ''
    got = list(open(out, 'rb').read()) if os.path.exists(out) else [-1]
    os.unlink(inp)
    ev = {'prog': x.prog, 'nm': [ord(ch) for ch in x.nm], 't': list(x.data), 'rc': rc, 'crash': crash, 'says': says, 'out': got,
          'old': [-1] if x.old is None else list(x.old), 'src': x.src, 'dst': x.dst}
    return ev


def examples(c, bins, xs):
    import json
    import threading
    loc = threading.local()

    def one(x):
        if not hasattr(loc, 'd'):
            loc.d = c.work.path('ex')
        return Run(x, (), ExBuild(['docs/examples', x.prog]), [json.dumps(run_example(bins, x, loc.d), separators=(',', ':'))])
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, xs))


@check('C22')
def c22(c):
    r = c.r
    # the laws of the composed operations, on every small list
    out = tlc(c.work, 'MCCanon', workers=NCPU, env={'DEPTH': str(c.n(3, 4))}, timeout=800)
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states', out, re.M)
    if 'Model checking completed. No error' not in out or not m:
        raise ToolError('TLC: ' + out[-3000:])
    c.model['states'] += int(m[-1][1])
    c.model['transitions'] += int(m[-1][0])
    # the programs as they are documented
    d = c.work.path('examples')
    os.makedirs(d)
    bins = {}
    src = {'clean': 'clean_graph', 'symm': 'symmetrize', 'find': 'find_edge'}

    def comp(p):
        q = sh(['g++', '-std=c++11', '-O1', '-w', '-fopenmp', '-I', os.path.join(REPO, 'include'),
                os.path.join(REPO, 'docs', 'examples', src[p] + '.cpp'), '-o', os.path.join(d, p)], timeout=600)
        if q.returncode:
            c.found.append(('the example %s does not build: %s' % (src[p], q.stdout.decode(errors='replace')[:1500]), None, 0))
        else:
            bins[p] = os.path.join(d, p)
    b = c.build('m', [(19, 255), (4, 255), (0, 255), (1, 255)])
    with cf.ThreadPoolExecutor(4) as ex:
        f = [ex.submit(comp, p) for p in src] + [ex.submit(build_all, [b])]
        for z in f:
            z.result()
    X = []

    def lines(n, top, w=False):
        es = [(r.randint(0, top), r.randint(0, top)) for _ in range(n)]
        return es

    def text(es, noise=0):
        t = ''
        for e in es:
            t += '%d%s%d%s\n' % (e[0], r.choice([' ', ' ', '\t', '  ']), e[1], r.choice(['', '', ' 7', '\r', ' # 3 4']) if noise else '')
            if noise and r.random() < 0.15:
                t += r.choice(['# 1 2\n', '\n', '% 5 5\n', '  \n'])
        return t[:-1] if r.random() < 0.2 else t
    group = 0
    for i in range(c.n(90, 900)):
        es = lines(r.choice([1, 2, 3, 5, 9, 20, 40]), r.choice([1, 3, 8, 30]))
        # the same graph, written in several ways
        ways = [list(es)]
        for _ in range(2):
            o = [e if r.random() < 0.5 else e[::-1] for e in es] + [r.choice(es) for _ in range(r.randint(0, 3))]
            r.shuffle(o)
            ways.append(o)
        for o in ways:
            for p in ('clean', 'symm'):
                if p in bins:
                    X.append(ExScn(p, 'a', text(o, r.random() < 0.3).encode(), r.choice([None, b'old contents']), threads=r.choice([1, 2, 3, 5, 8, 16])))
        if 'find' in bins:
            for _ in range(2):
                e = r.choice(es) if r.random() < 0.5 else (r.randint(-1, 9), r.randint(0, 9))
                X.append(ExScn('find', 'a', text(es, r.random() < 0.3).encode(), None, e[0], e[1], threads=r.choice([1, 2, 3, 8])))
    if 'find' in bins:
        X.append(ExScn('find', 'a', b'0 1\n1 2\n', None, 0, -1))
    for i in range(c.n(60, 600)):
        p = r.choice(list(bins) or [None])
        if not p:
            break
        y = r.random()
        if y < 0.5:
            fl = {'clean': 7, 'symm': 1, 'find': 0}[p]
            nm, t = 'a.mtx', gen.mm_text(r, 'n', fl, r.choice([1, 3, 6]), top=5, wrong=0.2)
        elif y < 0.8:
            nm, t = 'a.graph', gen.graph_text(r, r.choice([1, 3, 5]), wrong=0.1)
        else:
            nm, t = 'a', r.choice(['', '\n', 'PIGO', '#', '5 5\n', '1', '0 0\n0 0\n', 'x', '1 2'])
        X.append(ExScn(p, nm, t.encode('latin-1'), r.choice([None, b'zz']), r.randint(0, 5), r.randint(0, 5), threads=r.choice([1, 2, 5])))
    for n, top in c.n([(3000, 60), (5000, 900)], [(3000, 60), (5000, 900), (5000, 12000), (20000, 300)]):
        es = lines(n, top)
        t = text(es).encode()
        for p in bins:
            for th in (1, 8):
                X.append(ExScn(p, 'a', t, None, es[5][0], es[5][1], threads=th))
    xv = Validator(c.work)
    runs = examples(c, bins, X)
    for x in runs:
        xv.add(x)
    rej = xv.check(module='ExTrace')
    # (see known_findings.txt: a vertex below zero)
    negative = [x for x in rej if x[0].scn.prog == 'find' and (x[0].scn.src < 0 or x[0].scn.dst < 0)]
    if negative:
        c.known('find-edge-negative')
        rej = [x for x in rej if x not in negative]
    for run, n in rej[:5]:
        again = Validator(c.work)
        for q in examples(c, bins, [run.scn] * 10):
            again.add(q)
        if again.check(module='ExTrace', jvms=1) or '"rc":-1' not in run.events[0]:
            c.found.append(('the run of the example program is not allowed by the specification', run, n))
    c.val.total += xv.total
    c.val.events += xv.events
    c.val.states += xv.states
    c.val.transitions += xv.transitions
    c.val.seen.update(xv.seen)
    # the same pipelines over the library in other configurations
    T = []
    for i in range(c.n(260, 2600)):
        k = r.choice([19, 4, 0, 1])
        es = lines(r.choice([1, 2, 5, 9, 25]), r.choice([1, 3, 8]))
        wts = [' %d' % r.randint(0, 3) if k == 1 else '' for _ in es]
        t = ''.join('%d %d%s\n' % (a, b_, w) for (a, b_), w in zip(es, wts))
        clean = ['c2s B A', 'free A', 'dd C B', 's2c D C 0', 'write D o', 'load E coo %d 7 o EDGE_LIST' % k, 'c2s F E', 'dd G F', 's2c H G 0', 'write H p']
        symm = ['c2g B A', 'sort B', 'free A', 's2c D B 0', 'write D o', 'load E coo %d 0 o EDGE_LIST' % k]
        both = ['c2s B A', 's2c C B 3', 'c2s D C', 'dd E D', 'save E s', 'load F csr %d 0 s AUTO' % k, 's2c G F 1', 'save G t', 'load H coo %d 7 t AUTO' % k]
        x = r.random()
        if x < 0.5:
            T.append(S(put('a', t), 'load A coo %d 7 a NONE' % k, *clean))
        elif x < 0.75:
            T.append(S(put('a', t), 'load A coo %d 1 a NONE' % k, *symm, *['find B %d %d' % (r.choice(es)[0], r.choice(es)[1]) for _ in range(2)]))
        else:
            T.append(S(put('a', t), 'load A coo %d 0 a NONE' % k, *[o for o in both if k == 0 or True]))
    c.go(b, T, threads=(1, 2, 3, 8, 16))
    c.validate()
