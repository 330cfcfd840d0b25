"""Checks under chosen schedules: our own OpenMP runtime (harness/sched.cpp)."""
import re
from .core import *
from .models import Models
from .checks import (Ctx, REGISTRY, check, S, tokens, put, mk, WK, LB, OB, WB, SIGNED_L, wk)
from .checks2 import ten_nums, made, GOON, crowded
from .checks3 import mix
from . import gen
from .gen import hx


class MemVal:
    """Validates recorded memory behaviour against spec/OmpMem.tla."""

    def __init__(self, c):
        self.c, self.seen, self.pending, self.total = c, {}, [], 0
        self.states = self.transitions = self.events = 0

    def add(self, runs):
        for x in runs:
            for n, m in enumerate(x.mem):
                self.total += 1
                h = hashlib.sha256(m.encode()).digest()
                if h in self.seen:
                    continue
                self.seen[h] = True
                self.pending.append((x, n, m))

    def _tlc(self, part, workers):
        f = self.c.work.path('mem.ndjson')
        with open(f, 'w') as o:
            for i, m in part:
                o.write('{"id":%d,%s\n' % (i, m[1:]))
        out = tlc(self.c.work, 'OmpMem', workers=workers, env={'TRACES': f}, timeout=850)
        os.unlink(f)
        g = re.findall(r'^(\d+) states generated, (\d+) distinct states', out, re.M)
        if 'Model checking completed. No error' not in out or not g:
            raise ToolError('TLC: ' + out[-3000:])
        rej = [(int(a), int(b), w) for a, b, w in re.findall(r'<<"REJECT", (\d+), (\d+), "(\w+)">>', out)]
        return int(g[-1][1]), int(g[-1][0]), rej

    def check(self, jvms=4):
        """[(run, operation, event, race or bounds)]"""
        p, self.pending = self.pending, []
        if not p:
            return []
        size = sum(len(m) for _, _, m in p)
        jvms = max(1, min(jvms, size // 300000 + 1))
        order = sorted(range(len(p)), key=lambda i: -len(p[i][2]))
        parts = [[(i, p[i][2]) for i in order[j::jvms]] for j in range(jvms)]
        rej = []
        with cf.ThreadPoolExecutor(jvms) as ex:
            for st, tr, rj in ex.map(lambda q: self._tlc(q, max(1, NCPU // jvms)), parts):
                self.states += st
                self.transitions += tr
                rej += rj
        self.events += sum(m.count('["') for _, _, m in p)
        return [(p[i][0], p[i][1], n, w) for i, n, w in rej]


UP, DOWN, BLOCK, RANDOM, PCT, CHOICES = range(6)


def schedule(r, record=1, choices=None):
    """A line that chooses schedules for the operations after it"""
    k = r.choice([UP, DOWN, BLOCK, RANDOM, RANDOM, RANDOM, PCT, PCT, CHOICES])
    p = r.choice([1, 2, 5, 20, 80]) if k == RANDOM else r.choice([1, 2, 3])
    chunk = r.choice([1, 1, 2, 3])
    grant = r.choice([0, 0, 0, 1, 2, 3])
    ch = ''.join(str(r.randrange(8)) for _ in range(40)) if k == CHOICES else ''
    return 'sched %d %d %d %d %d %d %s' % (k, r.randrange(1 << 30), p, chunk, grant, record, ch)


def go_sched(c, mv, b, scns, times, record=1, environ=True):
    """Every scenario under several schedules and team sizes"""
    r = c.r
    T = []
    for s in scns:
        for _ in range(times):
            t = r.choice([2, 2, 3, 3, 4, 5, 8, 16])
            pre = ['T %d' % t, schedule(r, record)]
            if environ and r.random() < 0.3:
                # team sizes that vary from region to region, calls from within a team
                pre.append('omp %d %d' % r.choice([(1, 0), (1, 0), (1, 0), (0, 2), (0, 3), (1, 4)]))
            T.append(Scenario(pre + s.ops, s.mode, s.label))
    res = c.go(b, T, threads=(0,), op_seconds=8)
    mv.add(res)
    return res


def report_mem(c, mv, kinds):
    names = {'race': 'two unordered accesses to the same bytes, one of them a write',
             'bounds': 'an access outside of the object or to a released object'}
    for run, op, n, why in mv.check():
        if why in kinds and len([1 for f in c.found if f[1] is not None]) < 5:
            c.found.append(('memory: %s (operation %d with accesses, event %d: %s)' % (names[why], op + 1, n, run.mem[op][:1500]), run, len(run.events)))
    c.memory = {'recorded': mv.total, 'distinct': len(mv.seen), 'states': mv.states}
    c.val.events += mv.events
    c.val.states += mv.states
    c.val.transitions += mv.transitions


def deg_scn(r, k, fl):
    """conversions whose rows are filled by several threads"""
    w = WK[k]
    n = r.choice([1, 2, 3, 5])
    A = mk('A', 'coo', k, 0, gen.coo_nums(r, n, r.choice([3, 6, 10, 16]), w, skew=r.choice([0, 0.8])))
    y = r.random()
    if y < 0.4:
        return [A, 'c2s B A', 'sort B', 'dd C B', 's2c D C %d' % r.choice([f for f in fl if f in (0, 1, 3)])]
    if y < 0.6:
        return [A, 'c2d B A', 'c2m C A']
    if y < 0.8:
        return [A, 'write A o', 'load B coo %d %d o NONE' % (k, r.choice(fl)), 'c2s C B', 'dd D C']
    return [A, 'copy B A', 'asg A B', 'c2s D B', 'save D s', 'load E csr %d 0 s AUTO' % k, 's2c F E 0']


def text_scn(r, k, fl):
    """texts whose entries lie across the shares of the threads"""
    w = WK[k]
    x = r.random()
    f = r.choice(fl)
    if w == 'n' and r.random() < 0.3:
        x = 0.7
    if x < 0.45:
        t = gen.el_text(r, w, r.choice([1, 2, 4, 7]), top=r.choice([3, 12, 200]), noise=0.3) or '\n'
        return [put('a', t), 'load A coo %d %d a NONE' % (k, f)]
    if x < 0.65:
        return [put('a.mtx', gen.mm_text(r, w, f, r.choice([0, 1, 3, 6]), noise=0.1)), 'load A coo %d %d a.mtx AUTO' % (k, f)]
    if x < 0.85:
        return [put('a.graph', gen.graph_text(r, r.choice([0, 1, 3, 6]), noise=0.1)), 'load A csr %d 0 a.graph AUTO' % k]
    return [put('a', gen.ten_text(r, w, r.choice([1, 2, 3]), r.choice([0, 1, 3, 7]), noise=0.3) or '\n'), 'load A ten %d 0 a NONE' % k, 'mx A', 'write A o']


CFGS = [(0, 11), (1, 9), (3, 1), (9, 3), (16, 1), (12, 9)]


@check('C13')
def c13(c):
    r = c.r
    B = [c.build('s1', CFGS[:3], sched=True), c.build('s2', CFGS[3:], sched=True)]
    mod = Models(c, [('ParRows', {'HIST': 'yes', 'PRINT': 'yes', 'LEN': 4, 'TEAM': 2}),
                     ('ParRows', {'HIST': 'yes', 'PRINT': 'yes', 'LEN': c.n(3, 4), 'TEAM': 3})])
    build_all(B)
    mv = MemVal(c)
    # the orders of atomic steps of the model
    T = []
    for team, rows in zip((2, 3), mod.rows()):
        for row in r.sample(rows, min(len(rows), c.n(500, 10000))):
            x, h = row.split(';')
            x = x.split()
            e = ' '.join('%s %d' % (v, i + 1) for i, v in enumerate(x))
            T.append(S('T %d' % team, 'sched %d 1 1 1 0 %d %s' % (CHOICES, 1 if r.random() < 0.2 else 0, h),
                       'mk A coo 0 0 2 2 %d %d %s' % (len(x) + 1, len(x), e), 'c2s B A'))
    res = c.go(B[0], T, threads=(0,), op_seconds=8)
    mv.add(res)
    for b in B:
        S1 = []
        for i in range(c.n(130, 1000)):
            k, mask = r.choice(b.cfgs)[:2]
            fl = [f for f in range(8) if mask >> f & 1]
            g = r.choice([deg_scn, text_scn, mix])
            S1.append(S(*g(r, k, fl)))
        for i in range(c.n(12, 100)):
            t = ''.join(r.choice('ab\n') for _ in range(r.choice([1, 5, 17, 40])))
            k = r.choice(b.cfgs)[0]
            S1.append(S('offs %s %d %d 10 %d' % (hx(t), len(t), r.choice([0, r.randint(0, len(t))]), r.randrange(3)),
                        mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3]), r.choice([1, 2, 3, 9, 20]), WK[k])), 'mx A'))
        go_sched(c, mv, b, S1, c.n(6, 30))
        # whatever team each region gets
        T = []
        for i in range(c.n(160, 2000)):
            k, mask = r.choice(b.cfgs)[:2]
            fl = [f for f in range(8) if mask >> f & 1]
            g = r.choice([deg_scn, text_scn, mix])
            ops = g(r, k, fl)
            if WK[k] == 'n' and r.random() < 0.25:
                ops = [put('a.graph', gen.graph_text(r, r.choice([1, 3, 6, 12]), noise=0.1, wrong=0)), 'load A csr %d 0 a.graph AUTO' % k]
            T.append(Scenario(['T %d' % r.choice([2, 3, 4, 8, 16]), schedule(r, 0), 'omp 1 %d' % r.choice([0, 0, 0, 2])] + ops))
        c.go(b, T, threads=(0,), op_seconds=8)
    c.validate()
    report_mem(c, mv, ('race',))


# ---------------------------------------------------------------------------
def par_group(r, k, fl):
    """Operations on several objects and files, some of them at the same time"""
    w = WK[k]
    n = r.choice([2, 3, 5])
    ops, kind, fo = [], {}, {}
    for h in 'AB':
        ops.append(mk(h, 'coo', k, 0, gen.coo_nums(r, n, r.choice([1, 3, 8]), w)))
        kind[h] = 'coo'
    ops += ['c2s C A', mk('T', 'ten', k, 0, ten_nums(r, r.choice([1, 2]), r.choice([1, 3, 6]), w, 4)), 'save A f', 'save T t']
    kind['C'], kind['T'] = 'csr', 'ten'
    ops += [put('e', gen.el_text(r, w, r.choice([1, 4, 9]), top=r.choice([3, 12])) or '\n'),
            put('m.mtx', gen.mm_text(r, w, 0, r.choice([1, 3]), top=3, wrong=0, noise=0.1)), put('g.graph', gen.graph_text(r, r.choice([1, 3]), wrong=0))]
    fresh = ['N%d' % i for i in range(40)]
    files = {'f': 'coo', 't': 'ten', 'e': 'text', 'm.mtx': 'text', 'g.graph': 'text'}
    for g in range(r.choice([1, 1, 2, 3])):
        group, uses, changes = [], set(), set()
        new = {}
        for _ in range(r.choice([2, 2, 2, 3, 4, 6])):
            for _ in range(20):
                x = r.random()
                d = r.choice(fresh)          # (an operation that fails leaves its target as it was)
                s = r.choice(sorted(kind))
                ks = kind[s]
                if x < 0.25:
                    f = r.choice(sorted(files))
                    fk = files[f]
                    of = 0
                    kk = r.choice(['coo', 'csr', 'gra', 'dig', 'ten']) if fk == 'text' else fk
                    if fk == 'ten':
                        kk = 'ten'
                    elif kk == 'ten' and f != 'e':
                        kk = 'coo'
                    if kk == 'coo' and fk == 'text' and f != 'g.graph':
                        of = r.choice(fl)
                    o = ('load %s %s %d %d %s %s' % (d, kk, k, of, f, r.choice(['AUTO', 'NONE'])), d, {f}, kk)
                    fo[d] = of
                elif x < 0.45 and ks == 'coo':
                    q = r.choice(['c2s', 'c2g', 'c2d', 'c2m', 'copy'])
                    o = ('%s %s %s' % (q, d, s), d, {s}, {'c2s': 'csr', 'c2g': 'gra', 'c2d': 'dig', 'c2m': 'mat', 'copy': 'coo'}[q])
                    fo[d] = fo.get(s, 0)
                elif x < 0.5 and ks == 'ten':
                    o = ('copy %s %s' % (d, s), d, {s}, 'ten')
                elif x < 0.6 and ks == 'csr':
                    fo[d] = r.choice([f for f in fl if f in (0, 1, 3)])
                    o = ('s2c %s %s %d' % (d, s, fo[d]), d, {s}, 'coo')
                elif x < 0.7 and ks in ('csr', 'gra'):
                    o = ('sort ' + s, s, set(), ks)
                elif x < 0.75 and ks == 'coo':
                    o = ('tr ' + s, s, set(), ks)
                elif x < 0.8 and ks in ('coo', 'ten'):
                    d = r.choice([h for h in kind if kind[h] == ks and fo.get(h, 0) == fo.get(s, 0)])
                    o = ('asg %s %s' % (d, s), d, {s}, ks)
                elif x < 0.92 and ks != 'mat':
                    f = r.choice('uvxy')
                    o = ('save %s %s' % (s, f), f, {s}, ks)
                elif ks in ('coo', 'ten'):
                    f = r.choice('uvxy')
                    o = ('write %s %s' % (s, f), f, {s}, ks)
                else:
                    continue
                if o[1] in uses | changes or o[2] & changes:
                    continue
                if o[1] in o[2] and not o[0].startswith('asg'):
                    continue
                break
            else:
                continue
            group.append(o[0])
            uses |= o[2]
            changes.add(o[1])
            if o[1] in fresh:
                fresh.remove(o[1])
            if not o[0].startswith(('save', 'write')):
                new[o[1]] = o[3]
        kind.update(new)
        ops += ['par %d' % len(group)] + group
    ops += ['%s %s z' % ('write' if kind['A'] in ('coo', 'ten') else 'sort' if kind['A'] in ('csr', 'gra') else 'free', 'A')]
    return ops


def twins(r, k, fl, big=1):
    """The same call at the same time, two or three times, each on an object (or file) of its own"""
    w = WK[k]
    of = r.choice(fl)
    N = r.choice([2, 2, 3])
    ops, calls = [], []
    n = r.choice([2, 3, 5]) * big
    pick = r.choice(['load', 'load', 'graph', 'mm', 'ten', 'bin', 'bin', 'c2s', 'c2g', 'c2d', 'c2m', 'copy', 'copy', 'asg', 's2c', 's2c', 'dd', 'dd', 'dd', 'sort', 'tr',
                     'save', 'write', 'write', 'mx', 'guess', 'find', 'free', 'file', 'offs'])
    for i in range(N):
        kind = r.choice(['coo', 'csr', 'gra', 'dig', 'mat'])
        A, C, T, R, D = ('%s%d' % (x, i) for x in 'ACTRD')
        coo = mk(A, 'coo', k, 0, gen.coo_nums(r, n, r.choice([1, 3, 8]) * big, w))
        csr = [coo, r.choice(['c2s %s %s', 'c2s %s %s', 'c2g %s %s']) % (C, A)]
        ten = mk(T, 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3]), r.choice([1, 3, 6]) * big, w, 4))
        if pick == 'load':
            ops.append(put('e%d' % i, gen.el_text(r, w, r.choice([1, 4, 9]) * big, top=r.choice([3, 12])) or '\n'))
            calls.append('load %s %s %d %d e%d %s' % (R, kind, k, of if kind == 'coo' else 0, i, 'NONE' if kind == 'mat' else r.choice(['AUTO', 'EDGE_LIST'])))
        elif pick == 'graph':
            ops.append(put('g%d.graph' % i, gen.graph_text(r, r.choice([1, 3, 5]) * big, wrong=0)))
            calls.append('load %s %s %d 0 g%d.graph AUTO' % (R, r.choice(['coo', 'csr', 'gra', 'dig']), k, i))
        elif pick == 'mm':
            kind = r.choice(['coo', 'csr', 'dig'])
            ops.append(put('m%d.mtx' % i, gen.mm_text(r, w, 0, r.choice([1, 3, 6]) * big, top=3, wrong=0, noise=0.1)))
            calls.append('load %s %s %d %d m%d.mtx AUTO' % (R, kind, k, of if kind == 'coo' else 0, i))
        elif pick == 'ten':
            ops.append(put('t%d' % i, gen.ten_text(r, w, r.choice([1, 2, 3]), r.choice([1, 4]) * big)))
            calls.append('load %s ten %d 0 t%d NONE' % (R, k, i))
        elif pick == 'bin':
            kind = r.choice(['coo', 'csr', 'dig', 'ten'])
            h = {'coo': A, 'csr': C, 'dig': D, 'ten': T}[kind]
            ops += [coo, 'c2s %s %s' % (C, A), 'c2d %s %s' % (D, A), ten, 'save %s b%d' % (h, i)]
            if r.random() < 0.3:
                ops.append('fopen F%d r b%d' % (i, i))
                calls.append('loadf %s %s %d 0 F%d AUTO' % (R, kind, k, i))
            else:
                calls.append('load %s %s %d 0 b%d AUTO' % (R, kind, k, i))
        elif pick in ('c2s', 'c2g', 'c2d', 'c2m'):
            ops.append(coo)
            calls.append('%s %s %s' % (pick, R, A))
        elif pick == 'copy':
            ops += [coo, ten]
            calls.append('copy %s %s' % (R, r.choice([A, T])))
        elif pick == 'asg':
            x = r.random()
            ops += [coo, ten, mk(R, 'coo', k, 0, gen.coo_nums(r, n, r.choice([1, 3]), w)) if x < 0.6 else mk(R, 'ten', k, 0, ten_nums(r, 2, 2, w, 4))]
            calls.append('asg %s %s' % (R, A if x < 0.6 else T))
        elif pick in ('s2c', 'dd', 'sort', 'find'):
            ops += csr
            if pick == 'find':
                ops.append('sort ' + C)
                if 'c2g' in csr[1]:
                    calls.append('find %s %d %d' % (C, r.randrange(n), r.randrange(n)))
                    continue
                calls.append('sort ' + C)
            else:
                calls.append({'s2c': 's2c %s %s %d' % (R, C, r.choice([f for f in fl if f in (0, 1, 3)])), 'dd': 'dd %s %s' % (R, C), 'sort': 'sort ' + C}[pick])
        elif pick in ('tr', 'free'):
            ops += [coo, ten] + csr[1:]
            calls.append('%s %s' % (pick, A if pick == 'tr' else r.choice([A, C, T])))
        elif pick == 'save':
            ops += [coo, ten] + csr[1:] + ['c2d %s %s' % (D, A)]
            calls.append('save %s s%d' % (r.choice([A, C, T, D]), i))
        elif pick == 'write':
            ops += [coo, ten]
            calls.append('write %s s%d' % (r.choice([A, T]), i))
        elif pick == 'mx':
            ops.append(ten)
            calls.append('mx ' + T)
        elif pick == 'guess':
            nm = 'q%d%s' % (i, r.choice(['', '.mtx', '.graph']))
            ops.append(put(nm, r.choice(['1 2\n', 'PIGO-COO-v1', '%%MatrixMarket', 'x'])))
            calls.append('guess ' + nm)
        elif pick == 'file':
            x = r.choice('rrw')
            ops.append(put('f%d' % i, ''.join(r.choice('ab1 ') for _ in range(r.choice([9, 40]) * big))) if x == 'r' else 'sort Z')
            ops.append('fopen F%d %s f%d %s' % (i, x, i, '' if x == 'r' else 40 * big))
            calls.append((r.choice(['fread F%d 4', 'fpr F%d 9', 'fseek F%d 3', 'freader F%d', 'fguess F%d']) if x == 'r' else r.choice(['fwrite F%d 41424344', 'fpw F%d 4142434445', 'fwrites F%d 4142'])) % i)
        else:
            t = ''.join(r.choice('a\n') for _ in range(9 * big))
            calls.append('offs %s %d %d %d' % (hx(t), len(t), 0, 10))
    ops = [o for o in ops if o != 'sort Z']
    return ops + ['par %d' % len(calls)] + calls


@check('C23')
def c23(c):
    r = c.r
    B = [c.build('s1', CFGS[:3], sched=True), c.build('s2', CFGS[3:], sched=True)]
    D = c.build('m', [(0, 11), (1, 9), (3, 1), (9, 3), (16, 1), (12, 9)])
    mod = Models(c, [('MCPair', {'PRINT': 'yes'})])
    build_all(B + [D])
    mv = MemVal(c)
    # every pair of calls of the model
    V = ['3 3 3 2 0 1 2 0', '2 2 2 4 1 1 1 0 0 1 1 0', '4 4 4 1 3 3']
    T = []
    rows = mod.rows()[0]
    for row in r.sample(rows, min(len(rows), c.n(1200, 10000))):
        x, y, a, b = row.split(';')
        T.append(['mk A coo 0 0 ' + V[int(x) - 1], 'mk B coo 0 0 ' + V[int(y) - 1], 'mk Z coo 0 0 3 3 3 3 2 1 0 2 2 0', 'c2s C Z', 'save A f', 'par 2', a, b])
    c.go(D, [S(*t) for t in r.sample(T, min(len(T), c.n(300, 4000)))], threads=(1, 3))
    go_sched(c, mv, B[0], [S(*t) for t in T], 1, environ=False)
    for b in B:
        T = []
        for i in range(c.n(150, 1500)):
            k, mask = r.choice(b.cfgs)[:2]
            T.append(S(*par_group(r, k, [f for f in range(8) if mask >> f & 1])))
        go_sched(c, mv, b, T, c.n(4, 30), environ=False)
        T = []
        for i in range(c.n(200, 2000)):
            k, mask = r.choice(b.cfgs)[:2]
            T.append(S(*twins(r, k, [f for f in range(8) if mask >> f & 1])))
        go_sched(c, mv, b, T, c.n(2, 20), environ=False)
    T = []
    for i in range(c.n(200, 3000)):
        k, mask = r.choice(D.cfgs)[:2]
        T.append(S(*twins(r, k, [f for f in range(8) if mask >> f & 1], r.choice([1, 1, 12]))))
    for i in range(c.n(300, 3000)):
        k, mask = r.choice(D.cfgs)[:2]
        T.append(S(*par_group(r, k, [f for f in range(8) if mask >> f & 1])))
    c.go(D, T, threads=(1, 2, 5))
    # many entries, so that real threads overlap
    T = []
    for i in range(c.n(6, 40)):
        k = r.choice([0, 1, 3])
        g = ['load %s %s %d 0 %s NONE' % (h, kd, k, f) for h, kd, f in (('D', 'coo', 'e'), ('E', 'csr', 'e'), ('G', 'coo', 'f'), ('H', 'ten', 'e'))]
        g += ['save A u', 'write A v', 'c2s J A', 'c2d K A', 'sort C', 'copy L A']
        g = r.sample(g, r.choice([4, 6, 8]))
        nums = gen.coo_nums(r, 40, 900, WK[k])
        T.append(S(put('e', gen.el_text(r, WK[k], 600, top=40, noise=0.05)), mk('A', 'coo', k, 0, nums), 'save A f', 'c2s C A', 'par %d' % len(g), *g))
    c.go(D, T, threads=(1, 4))
    c.validate()
    report_mem(c, mv, ('race',))


# ---------------------------------------------------------------------------
def edge_texts(r, w):
    """Texts that stop at an awkward place"""
    base = r.choice([
        lambda: gen.el_text(r, w, r.choice([1, 2, 3]), top=r.choice([3, 120]), noise=0.4),
        lambda: gen.mm_text(r, w, r.choice([0, 1]), r.choice([0, 1, 3]), noise=0.3),
        lambda: gen.graph_text(r, r.choice([0, 1, 3]), noise=0.3),
        lambda: gen.ten_text(r, w, r.choice([1, 2, 3]), r.choice([1, 2, 4]), noise=0.4)])()
    x = r.random()
    if x < 0.35:
        base = base[:r.randint(0, len(base))]
    elif x < 0.7:
        base = base.rstrip('\n') + r.choice(['', '#', '%', '# x', '%%', ' ', '\t', '-', '+', '.', '1.', '1.5e', '1e-', '1e+', ' 1', ' -', '\n#', '\n%', '\r', '\n \n', '0'])
    elif x < 0.8:
        base = r.choice(['#', '%', '-', '.', '1', ' ', '\n', '1 ', '1 2', '1 2 -', '1 2 .', '1 2 3.', '1 2 3e', 'x', '%%MatrixMarket', '%%MatrixMarket matrix coordinate',
                         '%%MatrixMarket matrix coordinate\n', '%%MatrixMarket matrix coordinate\n1', '%%MatrixMarket matrix coordinate\n1 1', '3', '3 0', '0 0', '1 0\n', 'P', 'PIGO',
                         'PIGO-COO-v2', 'PIGO-CSR-v', 'PIGO-DiGraph-v1', 'PIGO-Tensor-v1'])
    return base


TEXT_TYPES = ['EDGE_LIST', 'EDGE_LIST', 'MATRIX_MARKET', 'GRAPH', 'AUTO', 'NONE']


def memory_scn(r, k, fl, lite=False):
    w = WK[k]
    x = r.random()
    if x < 0.4:
        nm = r.choice(['a', 'a', 'a.mtx', 'a.graph'])
        t = edge_texts(r, w)
        if t.startswith('PIGO') and len(t) > 4 and r.random() < 0.5:
            t += '\0' * r.randint(0, 20)
        kind = r.choice(['coo', 'coo', 'csr', 'ten', 'gra', 'dig'] + ['mat'])
        return [put(nm, t), 'load A %s %d %d %s %s' % (kind, k, r.choice(fl) if kind == 'coo' else 0, nm, 'NONE' if kind == 'mat' else r.choice(TEXT_TYPES))]
    if x < 0.65:
        kind = r.choice(['coo', 'csr', 'dig', 'ten'])
        ops = made(r, kind, k, r.choice([1, 2, 3])) + ['save A s']
        y = r.random()
        if y < 0.4:
            ops.append('cut s %d' % r.choice([r.randint(0, 40), r.randint(0, 140)]))
        elif y < 0.7:
            ops.append('byte s %d %d' % (r.randint(0, 25 if w == 'f' else 70), r.choice([0, 1, 2, 4, 8, 255, 127, r.randint(0, 255)]) if kind not in ('ten',) else r.choice([0, 1, 2, 3, 4])))
        elif y < 0.8:
            ops.append('add s %s' % hx(bytes(r.randrange(256) for _ in range(r.choice([1, 9])))))
        return ops + ['load B %s %d 0 s %s' % (r.choice([kind, kind, r.choice(['coo', 'csr', 'gra', 'dig', 'ten'])]), k, r.choice(['AUTO', 'NONE']))]
    if x < 0.75:
        n = r.choice([1, 2, 3])
        nums = gen.coo_nums(r, n, r.choice([1, 2, 6]), w)
        return [mk('A', 'coo', k, 0, nums), 'poke A %d %d %d' % (r.randrange(int(nums[3])), r.randrange(2), r.choice([n, n + 1, n + 7])), 'c2s B A', 'c2d C A', 'c2m D A', 'write A o']
    if x < 0.85:
        ops = [put('f', ''.join(r.choice('ab1 ') for _ in range(r.choice([1, 3, 8, 9, 40])))), 'fopen F r f']
        for _ in range(5):
            ops.append(r.choice(['fread F %d' % r.choice([1, 2, 4, 8]), 'freads F %s' % hx('ab1'), 'fpr F %d' % r.randint(0, 12), 'fseek F %d' % r.randint(0, 45), 'freader F', 'fguess F']))
        ops += ['fclose F', 'fopen G w g %d' % r.choice([1, 3, 8, 17])]
        for _ in range(4):
            ops.append(r.choice(['fwrite G ' + '41' * r.choice([1, 2, 4, 8]), 'fwrites G 616263', 'fpw G ' + '42' * r.randint(1, 12), 'fseek G %d' % r.randint(0, 16)]))
        return ops + ['fclose G']
    g = r.choice([deg_scn, text_scn, mix])
    return g(r, k, fl)


def memory(r, k, fl):
    ops = memory_scn(r, k, fl)
    # texts cut anywhere hold any number
    if WK[k] == 'f' and ops[-1].startswith('load A ') and len(ops) == 2 and ops[0].split()[1] in ('a', 'a.mtx', 'a.graph'):
        q = ops[1].split()
        if q[2] not in ('coo', 'ten'):
            q[2], q[6] = 'coo', 'EDGE_LIST'
        if ops[0].split()[2:] and ops[0].split()[2].startswith('5049474f'):
            q[6] = 'EDGE_LIST'
        return S(ops[0], ' '.join(q), mode='wide')
    return S(*ops)


def prim_scn(r):
    alph = '00112359' * 3 + '  \n\n#%-+..eE\r\tx'
    T = []
    for _ in range(8):
        t = ''.join(r.choice(alph) for _ in range(r.randint(0, 9)))
        t = re.sub(r'[eE][+-]?\d{2,}', 'e1', t)
        T.append('prim %s %d' % (hx(t) or '-', len(t)))
    for _ in range(4):
        t = ''.join(r.choice('ab\n') for _ in range(r.choice([0, 1, 5, 17])))
        T.append('offs %s %d %d 10 %d' % (hx(t) or '-', len(t), r.randint(0, len(t)), r.randrange(3)))
    return S(*T, mode='wide')


@check('C14')
def c14(c):
    r = c.r
    ex = ['-DVERIF_EXACT']
    B = [c.build('s1', [(0, 11), (1, 9), (3, 1)], sched=True, extra=ex), c.build('s2', [(4, 1), (16, 1), (12, 9), (15, 1)], sched=True, extra=ex)]
    A = c.build('asan', [(0, 139), (1, 9), (3, 1)], extra=ex + ['-DVERIF_OWN_NEW', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], link=['-fsanitize=address'])
    N = c.build('narrow', [(0, 1, ['-DCROSS=22']), (20, 159), (22, 159)], extra=ex + ['-DVERIF_OWN_NEW', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'], link=['-fsanitize=address'])
    build_all(B + [A, N])
    mv = MemVal(c)
    for b in B:
        T = []
        for i in range(c.n(700, 7000)):
            k, mask = r.choice(b.cfgs)[:2]
            T.append(memory(r, k, [f for f in range(8) if mask >> f & 1]))
        go_sched(c, mv, b, T, c.n(1, 4))
        go_sched(c, mv, b, [prim_scn(r) for _ in range(c.n(25, 250))], 1)
    T = []
    for i in range(c.n(900, 9000)):
        k, mask = r.choice(A.cfgs)[:2]
        T.append(memory(r, k, [f for f in range(8) if mask >> f & 1]))
    T += [prim_scn(r) for _ in range(c.n(40, 400))]
    envs = [{'ASAN_OPTIONS': 'detect_leaks=0:symbolize=0:abort_on_error=1:allocator_may_return_null=1:max_allocation_size_mb=400:handle_segv=0:handle_abort=0', 'VERIF_MEMORY_MB': '0'}]
    c.go(A, T, threads=(1, 4), envs=envs)
    c.go(N, crowded(r, c.n(300, 3000), bigs=(0,)), threads=(1, 4), envs=envs)
    c.validate()
    report_mem(c, mv, ('bounds',))
