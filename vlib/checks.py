"""The checks, one per property."""
import itertools, json, os, random, shutil, time
from .core import *
from .models import Models
from . import gen
from .gen import hx

# weight kind of each configuration of the driver (configs.hpp)
WK = {0: 'n', 1: 'f', 2: 'n', 3: 'i', 4: 'n', 5: 'f', 6: 'u', 7: 'i', 8: 'u', 9: 'i', 10: 'i', 11: 'u',
      12: 'u', 13: 'f', 14: 'f', 15: 'n', 16: 'n', 17: 'f', 18: 'f', 19: 'n', 20: 'u',
      21: 'n', 22: 'n', 23: 'i'}
# bytes of labels, ordinals, weights; largest label
LB = {0: 4, 1: 4, 2: 4, 3: 4, 4: 8, 5: 8, 6: 4, 7: 8, 8: 1, 9: 2, 10: 1, 11: 2, 12: 8, 13: 4, 14: 4, 15: 4,
      16: 4, 17: 4, 18: 8, 19: 8, 20: 4, 21: 1, 22: 2, 23: 8}


# bytes of ordinals and weights
OB = {0: 4, 1: 4, 2: 8, 3: 8, 4: 4, 5: 8, 6: 8, 7: 8, 8: 2, 9: 4, 10: 4, 11: 4, 12: 8, 13: 4, 14: 4, 15: 4, 16: 4,
      17: 4, 18: 8, 19: 8, 20: 1, 21: 2, 22: 1, 23: 2}
WB = {1: 4, 3: 4, 5: 8, 6: 4, 7: 8, 8: 1, 9: 2, 10: 1, 11: 2, 12: 8, 13: 8, 14: 4, 17: 4, 18: 4, 20: 2, 23: 1}
SIGNED_L = {6, 7, 10, 11, 22}


def lmax(k):
    return (1 << (8 * LB[k] - (1 if k in SIGNED_L else 0))) - 1


NARROW = [8, 9, 10, 11, 20, 21, 22, 23]        # types of 8 or 16 bits


def ntop(k, most=60000):
    """a largest label that leaves room for the sizes"""
    return min(lmax(k) - 2, most)


def nlen(r, k, most=180):
    """a number of entries an ordinal counts (both ways)"""
    return r.choice([1, 3, 40, 100, min(most, 120 if OB[k] == 1 else most)])


def wide_label(r, k, top=None):
    m = lmax(k) if top is None else top
    x = r.random()
    if x < 0.3:
        return m - r.choice([0, 0, 1, 2])
    if x < 0.5:
        return min(m, 10 ** r.randint(0, len(str(m)) - 1) - r.choice([0, 1]))
    return r.randint(0, m)


def wide_weight(r, k):
    w = WK[k]
    if w == 'n':
        return []
    if w == 'f':
        x = r.random()
        if x < 0.3:
            v = '%d' % r.randint(-10 ** r.randint(0, 7), 10 ** r.randint(0, 7))
        elif x < 0.8:
            v = '%.*f' % (r.randint(0, 9), r.uniform(-1, 1) * 10 ** r.randint(-4, 6))
        else:
            v = '%.*e' % (r.randint(0, 7), r.uniform(-9, 9) * 10 ** r.randint(-5, 8))
        return [v]
    b = 8 * WB[k]
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if w == 'i' else (0, (1 << b) - 1)
    x = r.random()
    if x < 0.2:
        v = hi - r.choice([0, 0, 1])
    elif x < 0.4:
        v = lo + r.choice([0, 0, 1])
    elif x < 0.6:
        v = r.choice([-1 if w == 'i' else 1, 0, 1, 9, 10, 99, 100])
    else:
        v = r.randint(lo, hi) >> r.randint(0, b - 1)
    return [str(max(lo, min(hi, v)))]


def wk(r, k):
    """kind of weights to make (see gen.wval): of the whole range at times"""
    w = WK[k]
    if w == 'n' or r.random() < 0.6:
        return w
    return 'F' if w == 'f' else w + str(8 * WB[k])


def wide_list(r, k, lines, least=0, nl=2):
    """lines of labels of any size (some equal, some that differ in high bits
    only) and weights, for mode wide"""
    top = lmax(k) - (r.random() < 0.9)
    pool = [max(least, wide_label(r, k, top)) for _ in range(3)]
    pool += [x ^ (1 << (4 * LB[k])) for x in pool] + [x ^ 1 for x in pool]
    pool = [x for x in pool if least <= x <= top] or [top]
    L = []
    for _ in range(lines):
        x = [str(r.choice(pool) if r.random() < 0.7 else max(least, wide_label(r, k, top))) for _ in range(nl)]
        L.append(r.choice([' ', ' ', '\t']).join(x + wide_weight(r, k)))
    return L


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.r = random.Random('%s/%d' % (prop, seed))
        self.work = Work()
        self.val = Validator(self.work)
        self.rejects = []               # (run, event number)
        self.found = []                 # violations that stand: (description, run or None, n)
        self.model = {'states': 0, 'transitions': 0}
        self.notes = []
        self.samples = []
        self.runs = 0
        self.t0 = time.time()
        self.builds = {}

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def known(self, ident):
        """A listed finding was met; without a listing it is a violation"""
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('finding: property=%s id=%s ' % (self.prop, ident)):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, l.split(' ', 3)[3].strip()))
                return
        self.found.append(('finding %s is not listed' % ident, None, 0))

    def build(self, name, cfgs, **kw):
        b = Build(self.work, cfgs, name=name, **kw)
        self.builds[name] = b
        return b

    def go(self, build, scns, threads=(1, 2, 3, 5), **kw):
        """execute and queue for validation"""
        res = execute(self.work, build, scns, threads=threads, **kw)
        self.runs += len(res)
        for x in res:
            self.val.add(x)
        if res and len(self.samples) < 6:
            x = res[self.r.randrange(len(res))]
            self.samples.append({'script': x.scn.text(x.pre)[:600], 'events': [e[:300] for e in x.events[:4]]})
        return res

    def validate(self, **kw):
        rej = self.val.check(**kw)
        seen = 0
        for run, n in rej:
            if seen >= 5:
                break
            if self.confirm(run, n):
                seen += 1
        return rej

    def confirm(self, run, n):
        """A rejection counts if a fresh execution is rejected again, or if the
        rejected event is an operation that ended normally (so that what was
        recorded is what the library returned)."""
        again = 0
        v = Validator(self.work)
        # (chosen schedules are the same every time)
        for _ in range(2 if run.build.sched else 12):
            for x in run_batch(run.build, [run.scn], run.pre, self.work, run.env, 5 if run.build.sched else 40):
                v.add(x)
        r2 = v.check(jvms=1)
        ev = run.events[n - 1] if n <= len(run.events) else ''
        normal = '"err":""' in ev
        if r2 or normal:
            self.found.append(('event %d of the history is not allowed by the specification' % n, run, n))
            return True
        self.notes.append('a rejection did not repeat: ' + ev[-200:])
        return False


REGISTRY = {}


def check(prop):
    def deco(f):
        REGISTRY[prop] = f
        return f
    return deco


def S(*ops, mode='small'):
    return Scenario(list(ops), mode)


def tokens(toks, lo, hi):
    for n in range(lo, hi + 1):
        for t in itertools.product(toks, repeat=n):
            yield ''.join(t)


def put(fn, text):
    return 'put %s %s' % (fn, hx(text))


# ---------------------------------------------------------------------------
@check('C01')
def c01(c):
    b = c.build('m', [(0, 1), (1, 1), (3, 1), (5, 1), (7, 1)] + [(k, 1) for k in NARROW])
    mod = Models(c, [('ParText', {'LEN': c.n(4, 6), 'TEAM': c.n(3, 5), 'PRINT': 'yes'}),
                     ('ParText', {'LEN': c.n(3, 5), 'TEAM': 2, 'ORDER': 'all'}),
                     ('ParText', {'KIND': 'pieces', 'LEN': c.n(3, 5), 'TEAM': c.n(4, 6)})])
    build_all([b])
    r = c.r
    # the texts of the model of the algorithm
    c.go(b, [S('put a ' + t, 'load A coo 0 0 a EDGE_LIST') for t in mod.rows()[0] if t], threads=(1, 2, 3, 4, 5))
    # every text of a few tokens, for every small team
    T = []
    for i, t in enumerate(tokens(['1 2\n', '3 0', ' ', '\n', '#4 5\n', '%', '12'], 1, c.n(4, 5))):
        T.append(S(put('a', t), 'load A coo 0 0 a EDGE_LIST'))
    for t in tokens(['1 2 .5\n', '3 0 -1', '\t', '\n', '# 4 5 6', '0 7 1e1 x'], 1, c.n(3, 4)):
        T.append(S(put('a', t), 'load A coo 1 0 a EDGE_LIST'))
    c.go(b, T, threads=(1, 2, 3, 4, 6))
    T = []
    for i in range(c.n(700, 6000)):
        k = r.choice([0, 0, 1, 3, 8, 5])
        t = gen.el_text(r, WK[k], r.choice([0, 1, 1, 2, 3, 5, 8, 13]), top=r.choice([3, 12, 126]),
                        noise=r.choice([0, 0.2, 0.5]))
        T.append(S(put('a', t or '\n'), 'load A coo %d 0 a %s' % (k, r.choice(['EDGE_LIST', 'EDGE_LIST', 'AUTO', 'NONE']))))
    for i in range(c.n(6, 60)):
        k = r.choice([0, 1, 3])
        T.append(S(put('a', gen.el_text(r, WK[k], r.choice([60, 150, 400]), top=r.choice([9, 9999, 1 << 30]), noise=0.1)),
                   'load A coo %d 0 a EDGE_LIST' % k))
    for m in c.n([5000], [4095, 4096, 4097, 5000, 12000]):
        for k in (0, 1):
            T.append(S(put('a', gen.el_text(r, WK[k], m, top=r.choice([9, 99999]), noise=0.05)), 'load A coo %d 0 a EDGE_LIST' % k))
    # labels of any size
    for i in range(c.n(150, 1500)):
        k = r.choice([0, 1, 3, 5, 7, 8])
        t = r.choice(['\n', '\n', '\n\n']).join(wide_list(r, k, r.choice([1, 2, 3, 6]))) + r.choice(['', '\n'])
        T.append(S(put('a', t), 'load A coo %d 0 a EDGE_LIST' % k, mode='wide'))
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    # types of 8 and 16 bits
    T = []
    for i in range(c.n(60, 600)):
        k = r.choice(NARROW)
        T.append(S(put('a', gen.el_text(r, WK[k], nlen(r, k), top=r.choice([9, ntop(k), ntop(k)]), noise=0.1)), 'load A coo %d 0 a EDGE_LIST' % k))
    c.go(b, T, threads=(1, 3, 8))
    # large teams, long texts
    T = [S(put('a', gen.el_text(r, WK[k], r.choice([3, 30, 300]), top=r.choice([9, 9999]), noise=0.2)), 'load A coo %d 0 a EDGE_LIST' % k)
         for k in (0, 1, 3, 0)]
    c.go(b, T, threads=(65, 130, 300))
    c.go(b, [S(put('a', gen.el_text(r, 'n', c.n(110000, 300000), top=99999, noise=0.02)), 'load A coo 0 0 a EDGE_LIST')], threads=(5,))
    c.validate()


@check('C02')
def c02(c):
    b = c.build('m', [(0, 255), (1, 255), (3, 255), (7, 3), (5, 3), (12, 3)] + [(k, 3) for k in NARROW])
    build_all([b])
    r = c.r
    T = []
    for i in range(c.n(1200, 12000)):
        k = r.choice([0, 0, 1, 3, 7])
        fl = r.choice([0, 0, r.randint(0, 7)]) if k != 7 else 0
        t = gen.mm_text(r, WK[k], fl, r.choice([0, 1, 1, 2, 3, 4, 6, 10]), noise=r.choice([0, 0.15, 0.4]))
        T.append(S(put('a.mtx', t or '\n'), 'load A coo %d %d a.mtx %s' % (k, fl, r.choice(['MATRIX_MARKET', 'AUTO', 'NONE']))))
    # every pair of sizes around the truth
    for fl in range(8):
        for nr, nc in itertools.product(range(4), repeat=2):
            for nnz in range(6):
                t = '%%%%MatrixMarket matrix coordinate\n%d %d %d\n2 1\n1 2\n2 2\n' % (nr, nc, nnz)
                T.append(S(put('a.mtx', t), 'load A coo 0 %d a.mtx MATRIX_MARKET' % fl))
    c.go(b, T, threads=(1, 2, 3, 5, 9))
    T = []
    for i in range(c.n(4, 40)):
        k = r.choice([0, 1])
        fl = r.choice([0, 1, 3, 7])
        T.append(S(put('a.mtx', gen.mm_text(r, WK[k], fl, r.choice([80, 200]), top=50, noise=0.1, wrong=0.1)),
                   'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl)))
    for m in c.n([4500], [4096, 4500, 11000]):
        for k, fl in ((0, 0), (1, 1), (0, 3)):
            T.append(S(put('a.mtx', gen.mm_text(r, WK[k], fl, m, top=r.choice([60, 9000]), noise=0.03, wrong=0)),
                       'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl)))
    c.go(b, T, threads=(1, 2, 7, 16))
    # labels and sizes of any size
    T = []
    for i in range(c.n(200, 2000)):
        k = r.choice([0, 1, 3, 7, 5, 12])
        fl = r.choice([0, 0, 1]) if k in (7, 5, 12) else r.randint(0, 7)
        L = wide_list(r, k, r.choice([1, 2, 3, 5]), least=1)
        big = [max(int(x.split()[i]) for x in L) for i in (0, 1)]
        h = [min(lmax(k) - (r.random() < 0.9), max(1, x + r.choice([0, 0, 0, 1, 7, -1, -(1 << 32)]))) for x in big]
        t = '%%%%MatrixMarket matrix coordinate\n%d %d %d\n' % (h[0], h[1], len(L) + r.choice([0, 0, 0, 0, 1, -1])) + '\n'.join(L) + '\n'
        T.append(S(put('a.mtx', t), 'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl), mode='wide'))
    for i in range(c.n(60, 600)):
        k, fl = r.choice(NARROW), r.choice([0, 0, 1])
        T.append(S(put('a.mtx', gen.mm_text(r, WK[k], fl, nlen(r, k), top=r.choice([9, ntop(k) - 4]), noise=0.1, wrong=0)),
                   'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl)))
    c.go(b, T, threads=(1, 3, 8))
    T = [S(put('a.mtx', gen.mm_text(r, WK[k], fl, m, top=r.choice([9, 999]), noise=0.1, wrong=w)), 'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl))
         for k in (0, 1, 3) for fl in (0, 1, 4) for m, w in ((3, 0.3), (150, 0))]
    c.go(b, T, threads=(65, 200))
    c.go(b, [S(put('a.mtx', gen.mm_text(r, 'n', 0, c.n(33000, 140000), top=99999, noise=0.02, wrong=0)), 'load A coo 0 0 a.mtx MATRIX_MARKET')], threads=(6,))
    c.validate()


@check('C03')
def c03(c):
    b = c.build('m', [(0, 1), (2, 1), (4, 1), (21, 1), (22, 1), (15, 1)])
    mod = Models(c, [('ParText', {'KIND': 'graph', 'LEN': c.n(3, 5), 'TEAM': c.n(3, 4), 'PRINT': 'yes'})])
    build_all([b])
    r = c.r
    c.go(b, [S('put a.graph ' + t, 'load A csr 0 0 a.graph GRAPH') for t in mod.rows()[0]], threads=(1, 2, 3, 4))
    T = []
    # bodies of a few tokens under a few headers
    for n, m in ((1, 1), (2, 1), (2, 2), (3, 2), (0, 0), (3, 0)):
        for t in tokens(['1', '2\n', '\n', ' ', '%c\n', '0 3'], 0, c.n(3, 4)):
            T.append(S(put('a.graph', '%d %d\n' % (n, m) + t), 'load A csr 0 0 a.graph GRAPH'))
    c.go(b, T, threads=(1, 2, 3, 4))
    T = []
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 0, 2, 4])
        t = gen.graph_text(r, r.choice([0, 1, 2, 3, 4, 6, 9]), deg=r.choice([2, 3, 6]), noise=r.choice([0, 0, 0.15, 0.4]),
                           wrong=r.choice([0, 0, 0.3]))
        T.append(S(put('a.graph', t), 'load A %s %d 0 a.graph %s' % (r.choice(['csr', 'gra', 'csr', 'coo', 'dig']), k,
                                                                    r.choice(['GRAPH', 'AUTO', 'NONE']))))
    for i in range(c.n(5, 40)):
        T.append(S(put('a.graph', gen.graph_text(r, r.choice([60, 150]), deg=4, noise=0.1, wrong=0)),
                   'load A %s 0 0 a.graph GRAPH' % r.choice(['csr', 'gra'])))
    for n in c.n([3000], [3000, 10300]):
        for one in (True, False):
            T.append(S(put('a.graph', gen.graph_text(r, n, deg=3, noise=0.02, wrong=0, one=one)), 'load A csr 2 0 a.graph GRAPH'))
    # labels beyond the rows, of up to 31 bits
    for i in range(c.n(60, 600)):
        n = r.choice([1, 2, 3])
        rows = [[r.choice([0, 1, n, 65535, 65536, 99999, 16777217, 2099999998, r.randint(0, 2099999998)]) for _ in range(r.choice([0, 1, 2, 3]))]
                for _ in range(n)]
        t = '%d %d\n' % (n, sum(map(len, rows))) + ''.join(' '.join(map(str, x)) + '\n' for x in rows)
        T.append(S(put('a.graph', t), 'load A %s %d 0 a.graph GRAPH' % (r.choice(['csr', 'coo']), r.choice([0, 2, 4]))))
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    T = [S(put('a.graph', gen.graph_text(r, n, deg=4, noise=0.1, wrong=0)), 'load A csr %d 0 a.graph GRAPH' % k) for n in (2, 20, 200) for k in (0, 4)]
    for i in range(c.n(30, 300)):
        k = r.choice([21, 22])
        n, d = r.choice([(2, 3), (30, 3), (100, 1)] + ([(240, 2), (240, 3), (7, 200)] if k == 21 else [(9000, 0), (3000, 0)]))
        if d:
            t = gen.graph_text(r, n, deg=d, noise=0.1, wrong=0)
        else:
            e = [r.randint(0, n) for _ in range(60)]
            q = r.randrange(n)
            t = '%d %d\n' % (n, 60) + '\n' * q + ' '.join(map(str, e)) + '\n' * (n - q)
        T.append(S(put('a.graph', t), 'load A %s %d 0 a.graph GRAPH' % (r.choice(['csr', 'coo', 'gra']), k)))
    # one row of many, many rows of nothing
    T += [S(put('a.graph', '%d %d\n' % (n, d) + '\n' * q + ' '.join(str(r.randint(0, n)) for _ in range(d)) + '\n' * (n - q)),
            'load A csr 0 0 a.graph GRAPH') for n, d, q in ((5, 3000, 0), (5, 3000, 3), (4000, 5, 0), (4000, 5, 2000), (4000, 5, 3999))]
    c.go(b, T, threads=(3, 65, 200))
    c.go(b, [S(put('a.graph', gen.graph_text(r, c.n(34000, 80000), deg=3, noise=0.01, wrong=0)), 'load A csr 2 0 a.graph GRAPH')], threads=(5,))
    c.validate()


@check('C04')
def c04(c):
    b = c.build('m', [(0, 1), (1, 1), (3, 1), (14, 1), (5, 1)] + [(k, 1) for k in NARROW])
    build_all([b])
    r = c.r
    T = []
    for t in tokens(['1 2', '\n', '3 ', ' ', '#4\n', '\t5'], 1, c.n(4, 5)):
        T.append(S(put('a', t), 'load A ten 0 0 a EDGE_LIST'))
    for t in tokens(['1 2 .5', '\n', '-1', ' ', '# 4\n', '0 7 1e1'], 1, c.n(3, 4)):
        T.append(S(put('a', t), 'load A ten 1 0 a EDGE_LIST'))
    c.go(b, T, threads=(1, 2, 3))
    T = []
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 1, 3, 8, 14])
        t = gen.ten_text(r, WK[k], r.choice([1, 2, 2, 3, 3, 4, 5]), r.choice([0, 1, 1, 2, 3, 5, 9]), top=r.choice([9, 120]),
                         noise=r.choice([0, 0.2, 0.5]))
        T.append(S(put('a', t or '\n'), 'load A ten %d 0 a %s' % (k, r.choice(['EDGE_LIST', 'AUTO', 'NONE']))))
    for i in range(c.n(5, 40)):
        k = r.choice([0, 1, 3])
        T.append(S(put('a', gen.ten_text(r, WK[k], 3, r.choice([60, 150]), top=9999, noise=0.1)), 'load A ten %d 0 a EDGE_LIST' % k))
    for m in c.n([4500], [4096, 4500, 11000]):
        for k in (0, 3):
            T.append(S(put('a', gen.ten_text(r, WK[k], r.choice([2, 3]), m, top=9999, noise=0.03)), 'load A ten %d 0 a EDGE_LIST' % k))
    for i in range(c.n(60, 600)):
        k = r.choice([0, 1, 3, 8])
        T.append(S(put('a', gen.ten_text(r, WK[k], r.choice([6, 7, 8, 9, 12, 17, 40]), r.choice([1, 2, 5]), top=120, noise=0.2)), 'load A ten %d 0 a EDGE_LIST' % k))
    for i in range(c.n(150, 1500)):
        k, o = r.choice([0, 1, 3, 8, 5]), r.choice([1, 2, 3, 3, 4])
        t = r.choice(['\n', '\n', '\n\n']).join(wide_list(r, k, r.choice([1, 2, 3, 6]), nl=o)) + r.choice(['', '\n'])
        T.append(S(put('a', t), 'load A ten %d 0 a EDGE_LIST' % k, mode='wide'))
    for i in range(c.n(60, 600)):
        k = r.choice(NARROW)
        T.append(S(put('a', gen.ten_text(r, WK[k], r.choice([1, 2, 3, 5, 40]), nlen(r, k), top=ntop(k), noise=0.1)), 'load A ten %d 0 a EDGE_LIST' % k))
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    c.go(b, [S(put('a', gen.ten_text(r, WK[k], 3, m, top=9999, noise=0.1)), 'load A ten %d 0 a EDGE_LIST' % k) for k in (0, 1) for m in (3, 250)], threads=(65, 200))
    c.go(b, [S(put('a', gen.ten_text(r, 'n', c.n(2, 3), c.n(33000, 80000), top=9999, noise=0.01)), 'load A ten 0 0 a EDGE_LIST')], threads=(5,))
    c.validate()


@check('C05')
def c05(c):
    b = c.build('m', [(0, 255), (1, 255), (3, 255), (14, 255), (7, 255), (12, 255)] + [(k, 139) for k in NARROW])
    mod = Models(c, [('ParText', {'KIND': 'pieces', 'LEN': c.n(2, 4), 'TEAM': c.n(3, 4), 'FLAGS': f}) for f in range(1, 8)], par=3, workers=2)
    build_all([b])
    r = c.r
    mod.rows()
    T = []
    # weights of 64 bits, and doubles
    for i in range(c.n(150, 1500)):
        k, fl = r.choice([7, 7, 12, 12, 14]), r.choice([0, 1, 1, 1, 3, 5, r.randint(0, 7)])
        t = ''.join('%d %d %s\n' % (r.randint(0, 4), r.randint(0, 4), wide_weight(r, k)[0]) for _ in range(r.randint(1, 5)))
        T.append(S(put('a', t), 'load A coo %d %d a EDGE_LIST' % (k, fl), mode='wide'))
    # labels of any size
    for i in range(c.n(200, 2000)):
        k, fl = r.choice([0, 1, 3, 7, 12, 12]), r.randint(0, 7)
        t = '\n'.join(wide_list(r, k, r.choice([1, 2, 3, 6]))) + '\n'
        T.append(S(put('a', t), 'load A coo %d %d a EDGE_LIST' % (k, fl), mode='wide'))
    # every short sequence of entries over two labels, every combination
    for fl in range(8):
        for n in range(0, c.n(4, 5)):
            for es in itertools.product(['0 0', '0 1', '1 0', '1 1'], repeat=n):
                if n == 3 and r.random() > c.n(0.4, 1):
                    continue
                T.append(S(put('a', '\n'.join(es) + '\n'), 'load A coo 0 %d a EDGE_LIST' % fl))
                if n <= 2:
                    ws = [e + ' %d' % (i + 1) for i, e in enumerate(es)]
                    T.append(S(put('a', '\n'.join(ws)+'\n'), 'load A coo 3 %d a EDGE_LIST' % fl))
    c.go(b, T, threads=(1, 2, 3))
    T = []
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 1, 3, 14])
        fl = r.randint(0, 7)
        if r.random() < 0.6:
            t = gen.el_text(r, WK[k], r.choice([1, 2, 3, 5, 9, 14]), top=r.choice([1, 3, 12]), noise=r.choice([0, 0.2]))
            T.append(S(put('a', t or '\n'), 'load A coo %d %d a EDGE_LIST' % (k, fl)))
        else:
            t = gen.mm_text(r, WK[k], fl, r.choice([1, 2, 3, 5, 9]), top=r.choice([2, 4, 8]), wrong=0.1)
            T.append(S(put('a.mtx', t), 'load A coo %d %d a.mtx MATRIX_MARKET' % (k, fl)))
    for i in range(c.n(8, 60)):
        k = r.choice([0, 1, 3])
        fl = r.randint(0, 7)
        T.append(S(put('a', gen.el_text(r, WK[k], r.choice([60, 200]), top=r.choice([3, 40]), noise=0.1)),
                   'load A coo %d %d a EDGE_LIST' % (k, fl)))
    for m in c.n([4500], [4096, 4500, 11000]):
        for k, fl in ((0, 1), (1, 5), (3, 6), (0, 7)):
            T.append(S(put('a', gen.el_text(r, WK[k], m, top=r.choice([9, 99999]), noise=0.03)), 'load A coo %d %d a EDGE_LIST' % (k, fl)))
    for i in range(c.n(60, 600)):
        k = r.choice(NARROW)
        T.append(S(put('a', gen.el_text(r, WK[k], nlen(r, k), top=r.choice([9, ntop(k), ntop(k)]), noise=0.1)), 'load A coo %d %d a EDGE_LIST' % (k, r.choice([1, 3, 7]))))
    # many self loops in a row (dropping must not need memory for each)
    for fl in (0, 4, 2, 6):
        T.append(S(put('a', '1 2\n' + '7 7\n' * 50 + '9 8\n' * 40), 'load A coo 0 %d a EDGE_LIST' % fl))
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    T = [S(put('a', '1 2\n' + a * c.n(20000, 60000) + '3 4\n'), 'load A coo %d %d a EDGE_LIST' % (k, fl))
         for k, fl, a in ((0, 4, '7 7\n'), (0, 2, '9 8\n'), (1, 6, '9 8 1\n'), (0, 5, '7 7\n'))]
    c.go(b, T, threads=(4,), envs=[{'OMP_STACKSIZE': '192K'}])
    c.go(b, [S(put('a', gen.el_text(r, WK[k], m, top=r.choice([9, 99999]), noise=0.03)), 'load A coo %d %d a EDGE_LIST' % (k, fl))
             for k in (0, 1) for fl in (1, 3, 4) for m in (3, 300)], threads=(65, 200))
    # (also nearly as many entries as an ordinal counts)
    c.go(b, [S(put('a', gen.el_text(r, WK[k], n, top=999, noise=0.01)), 'load A coo %d 1 a EDGE_LIST' % k)
             for k, n in c.n([(23, 32700)], [(23, 32700), (0, 70000)])], threads=(5,))
    c.validate()


def mk(h, kind, k, fl, nums):
    return 'mk %s %s %d %d %s' % (h, kind, k, fl, ' '.join(nums))


def csr_full(r, k, rows, cols, most):
    """csr_nums with nearly `most' entries"""
    avg = 2 * most // rows
    while True:
        nums = gen.csr_nums(r, rows, cols, wk(r, k), avg=avg)
        m = int(nums[3])
        if 0.85 * most < m <= most:
            return nums
        avg = max(1, int(avg * 0.93 * most / max(m, 1)))


@check('C06')
def c06(c):
    b = c.build('m', [(0, 9, ['-DCROSS=2']), (1, 9, ['-DCROSS=5']), (3, 1), (4, 1), (8, 1), (9, 1), (10, 1), (20, 1)])
    mod = Models(c, [('ParRows', {'LEN': c.n(3, 4), 'TEAM': 2}), ('ParRows', {'LEN': 3, 'ROWS': c.n(1, 3), 'TEAM': 3})])
    build_all([b])
    r = c.r
    mod.rows()
    T = []
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 0, 1, 3, 4, 8, 9, 10, 20])
        n = r.choice([1, 1, 2, 3, 5, 8, 12])
        m = r.choice([0, 1, 2, 4, 8, 16, 30])
        op = r.choice(['c2s', 'c2s', 'c2s', 'c2g'])
        ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, n, m, wk(r, k), skew=r.choice([0, 0.5, 0.95]), rect=r.random() < 0.3,
                                                  spare=r.choice([0, 0, 1, 3])))]
        cross = {0: ' 2', 1: ' 5'}.get(k, '') if r.random() < 0.3 and op == 'c2s' else ''
        ops += ['%s B A%s' % (op, cross)]
        if not cross and r.random() < 0.3:
            ops += ['c2s C A']
        T.append(S(*ops))
    for i in range(c.n(250, 2500)):
        k = r.choice([0, 1, 3, 4])
        kind = r.choice(['csr', 'gra', 'dig', 'mat'])
        if r.random() < 0.6:
            t, fn = gen.el_text(r, WK[k], r.choice([1, 2, 5, 12]), top=r.choice([1, 4, 9])), 'a'
        else:
            t, fn = gen.mm_text(r, WK[k], 0, r.choice([1, 2, 5, 12]), top=r.choice([2, 6]), wrong=0.1), 'a.mtx'
        T.append(S(put(fn, t or '\n'), 'load A %s %d 0 %s NONE' % (kind, k, fn)))
    for i in range(c.n(6, 40)):
        k = r.choice([0, 1])
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([5, 300]), r.choice([500, 900]), wk(r, k), skew=r.choice([0, 0.9]))), 'c2s B A'))
    # ordinals wider than labels, and labels wider than ordinals
    for k in (8, 9, 10):
        for m in (300, 700):
            for sk in (0, 0.9):
                T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([100, 126]), m, wk(r, k), skew=sk)), 'c2s B A', 'c2d C A', 'c2m D A'))
    for n in (200, 300, 600):
        for m in (0, 9, 250):
            T.append(S(mk('A', 'coo', 20, 0, gen.coo_nums(r, n, m, wk(r, 20), spare=r.choice([0, 3]))), 'c2s B A', 'c2d C A', 'c2m D A'))
    for n, m in c.n([(11000, 5000)], [(11000, 5000), (5000, 12000), (25000, 3000)]):
        T.append(S(mk('A', 'coo', 1, 0, gen.coo_nums(r, n, m, 'f')), 'c2s B A'))
    # no more entries than threads, one label, no entry
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    # narrow types to their ends, large teams, more entries than 16 bits count
    T = []
    for k, ns in ((8, (200, 254)), (9, (300, 40000, 65534)), (10, (126,)), (20, (254,))):
        for n in ns:
            T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, n, r.choice([3, 60, 200]), wk(r, k), skew=r.choice([0, 0.5]))), 'c2s B A', 'c2d C A', 'c2m D A'))
    c.go(b, T, threads=(1, 3, 8))
    T = [S(mk('A', 'coo', k, 0, gen.coo_nums(r, n, m, wk(r, k), skew=0.5)), 'c2s B A') for k in (0, 1) for n in (2, 90) for m in (5, 400)]
    c.go(b, T, threads=(65, 200))
    c.go(b, [S(mk('A', 'coo', 0, 0, gen.coo_nums(r, n, c.n(140000, 300000), 'n', skew=sk)), 'c2s B A') for n, sk in c.n([(300, 0.99)], [(300, 0.99), (40000, 0)])],
         threads=(6,))
    # nearly as many entries as an ordinal counts
    c.go(b, [S(mk('A', 'coo', k, 0, gen.coo_nums(r, 250, 65000, wk(r, k))), o + ' B A') for k, o in c.n([(8, 'c2s')], [(8, 'c2s'), (8, 'c2d'), (8, 'c2m')])], threads=(6,))
    # real contention
    T = [S(mk('A', 'coo', 0, 0, gen.coo_nums(r, 3, 1500, 'n', skew=0.9)), 'c2s B A') for _ in range(2)]
    for _ in range(c.n(4, 20)):
        c.go(b, T, threads=(8,))
    c.validate()


@check('C07')
def c07(c):
    b = c.build('m', [(0, 255, ['-DCROSS=2']), (1, 255), (3, 255), (16, 255), (8, 11), (9, 11), (10, 11), (20, 11)])
    build_all([b])
    r = c.r
    T = []
    # ordinals wider than labels, and labels wider than ordinals
    for k in (8, 9, 10):
        for rows in (1, 3, 90, 120):
            for avg in (2, 9, 40):
                nums = gen.csr_nums(r, rows, r.choice([3, 120]), wk(r, k), avg=avg, long_row=r.choice([0, 280]))
                T.append(S(mk('A', 'csr', k, 0, nums), 's2c B A 0', 's2c C A 1', 's2c D A 3'))
    for rows in (200, 300, 700):
        nums = gen.csr_nums(r, rows, 900, wk(r, 20), avg=1)
        if int(nums[3]) < 120:
            T.append(S(mk('A', 'csr', 20, 0, nums), 's2c B A 0', 's2c C A 1', 's2c D A 3'))
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 0, 1, 3, 16])
        rows = r.choice([1, 2, 3, 5, 8])
        nums = gen.csr_nums(r, rows, r.choice([1, rows, rows + 2, max(1, rows - 1)]), wk(r, k), avg=r.choice([1, 2, 4]),
                            long_row=r.choice([0, 0, 12]), one=r.random() < 0.2)
        ops = [mk('A', 'csr', k, 0, nums)]
        if k == 0 and r.random() < 0.2:
            ops.append('s2c B A 0 2')
        else:
            for f in r.sample(range(8), 2):
                ops.append('s2c B%d A %d' % (f, f))
        T.append(S(*ops))
    T.append(S('mk A csr 0 0', 's2c B A 0', 's2c C A 1'))
    for i in range(c.n(120, 1200)):
        k = r.choice([0, 1])
        T.append(S(put('a', gen.el_text(r, WK[k], r.choice([1, 3, 9]), top=6)), 'load A csr %d 0 a EDGE_LIST' % k,
                   's2c B A %d' % r.choice([0, 1, 3]), 'save A s', 'load C coo %d %d s AUTO' % (k, r.choice([0, 1, 3]))))
    for i in range(c.n(100, 1000)):
        T.append(S(put('a.graph', gen.graph_text(r, r.choice([1, 2, 5]), wrong=0)), 'load A csr 0 0 a.graph GRAPH',
                   's2c B A %d' % r.choice([0, 1, 3]), 'load C coo 0 %d a.graph GRAPH' % r.randint(0, 7)))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16))
    # more rows than one chunk of the loop
    T = []
    for rows in c.n([10241], [10239, 10240, 10241, 20481, 31000]):
        for fl in c.n([0, 1], [0, 1, 3]):
            nums = gen.csr_nums(r, rows, 50, 'n', avg=1)
            T.append(S(mk('A', 'csr', 0, 0, nums), 's2c B A %d' % fl))
    c.go(b, T, threads=c.n((3,), (1, 3, 8)))
    T = []
    for k, cs in ((8, (200, 254)), (9, (300, 40000, 65534)), (10, (126,)), (20, (254, 70000))):
        for cols in cs:
            nums = gen.csr_nums(r, r.choice([3, 60]), cols, wk(r, k), avg=2)
            if int(nums[3]) < (250 if k == 20 else 1000):
                T += [S(mk('A', 'csr', k, 0, nums), 's2c B A %d' % fl) for fl in (0, 1, 3)]
    # (GCC 13 runs loops over 8-bit variables wrongly in teams of more than 127)
    c.go(b, T, threads=(2, 65))
    T = []
    for rows in (2, 90):
        T += [S(mk('A', 'csr', k, 0, gen.csr_nums(r, rows, rows, WK[k], avg=3)), 's2c B A %d' % fl) for k in (0, 1) for fl in (0, 1)]
    c.go(b, T, threads=(2, 65, 200))
    T = [S(mk('A', 'csr', 0, 0, gen.csr_nums(r, r.choice([300, 9000]), 70000, 'n', avg=1, long_row=c.n(66000, 140000))), 's2c B A %d' % fl) for fl in (0, 1)]
    # nearly as many entries as an ordinal counts
    T += [S(mk('A', 'csr', 8, 0, csr_full(r, 8, 200, 250, 65535 if fl == 0 else 32767)), 's2c B A %d' % fl) for fl in c.n((1,), (0, 1, 3))]
    c.go(b, T, threads=(5,))
    c.validate()


@check('C08')
def c08(c):
    b = c.build('m', [(0, 1, ['-DCROSS=2']), (1, 1, ['-DCROSS=5']), (3, 1), (14, 1), (8, 1), (9, 1), (10, 1), (20, 1)])
    mod = Models(c, [('ParDedup', {'LEN': 3, 'TEAM': 2}), ('ParDedup', {'LEN': c.n(2, 3), 'ROWS': 3, 'TEAM': c.n(2, 3)})])
    build_all([b])
    r = c.r
    mod.rows()
    T = []
    for k in (8, 9, 10):
        for rows in (1, 3, 90, 120):
            for avg in (2, 9, 40):
                nums = gen.csr_nums(r, rows, r.choice([3, 120]), wk(r, k), avg=avg, long_row=r.choice([0, 280]))
                T.append(S(mk('A', 'csr', k, 0, nums), 'sort A' if avg == 2 else 'dd B A'))
    for rows in (100, 200, 300):
        nums = gen.csr_nums(r, rows, 900, wk(r, 20), avg=1)
        if int(nums[3]) < 250:
            T.append(S(mk('A', 'csr', 20, 0, nums), 'dd B A'))
    for i in range(c.n(900, 9000)):
        k = r.choice([0, 0, 1, 3, 14])
        rows = r.choice([1, 2, 3, 5, 8])
        nums = gen.csr_nums(r, rows, r.choice([1, 2, rows, rows + 3]), wk(r, k), avg=r.choice([1, 3, 6]),
                            long_row=r.choice([0, 0, 20, 40]), dup=r.choice([0, 0.4, 0.9]), one=r.random() < 0.2,
                            order=r.choice(['any', 'any', 'sorted', 'down']))
        ops = [mk('A', 'csr', k, 0, nums)]
        x = r.random()
        if x < 0.35:
            ops += ['sort A', 'sort A']
        elif x < 0.8:
            ops += ['dd B A'] + (['dd C B'] if r.random() < 0.5 else []) + (['sort A'] if r.random() < 0.3 else [])
        else:
            ops += ['dd B A' + {0: ' 2', 1: ' 5'}.get(k, '')]
        T.append(S(*ops))
    for i in range(c.n(150, 1500)):
        k = r.choice([0, 1, 3])
        T.append(S(put('a', gen.el_text(r, WK[k], r.choice([1, 5, 14]), top=r.choice([1, 3]))), 'load A gra %d 0 a EDGE_LIST' % k,
                   r.choice(['sort A', 'dd B A'])))
    for i in range(c.n(40, 400)):
        T.append(S(put('a.graph', gen.graph_text(r, r.choice([1, 2, 5]), wrong=0)), 'load A gra 0 0 a.graph GRAPH',
                   'sort A', 'dd B A'))
    T.append(S('mk A csr 0 0', 'sort A', 'dd B A'))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16))
    T = []
    for rows in c.n([10241], [10239, 10240, 10241, 20481, 31000]):
        nums = gen.csr_nums(r, rows, 6, 'n', avg=1, dup=0.6)
        T.append(S(mk('A', 'csr', 0, 0, nums), 'dd B A'))
        T.append(S(mk('A', 'csr', 0, 0, nums), 'sort A'))
        nums = gen.csr_nums(r, rows + c.n(59, 10300), 6, 'f', avg=1, dup=0.6)
        T.append(S(mk('A', 'csr', 1, 0, nums), 'sort A'))
        T.append(S(mk('A', 'csr', 1, 0, nums), 'dd B A'))
    nums = gen.csr_nums(r, 12, 400, 'f', avg=40, long_row=300)
    T.append(S(mk('A', 'csr', 1, 0, nums), 'dd B A'))
    c.go(b, T, threads=c.n((3,), (1, 3, 8)))
    # narrow types to their ends, large teams, long rows
    T = []
    for k, cs in ((8, (200, 254)), (9, (300, 40000, 65534)), (10, (126,)), (20, (254, 70000))):
        for cols in cs:
            for dup in (0, 0.7):
                nums = gen.csr_nums(r, r.choice([3, 20]), cols, wk(r, k), avg=4, dup=dup)
                if int(nums[3]) < (250 if k == 20 else 1000):
                    T += [S(mk('A', 'csr', k, 0, nums), op) for op in ('sort A', 'dd B A')]
    # (GCC 13 runs loops over 8-bit variables wrongly in teams of more than 127)
    c.go(b, T, threads=(2, 65))
    T = []
    for k in (0, 1, 3):
        nums = gen.csr_nums(r, 90, 5, wk(r, k), avg=5, dup=0.5)
        T += [S(mk('A', 'csr', k, 0, nums), 'sort A'), S(mk('A', 'csr', k, 0, nums), 'dd B A')]
    c.go(b, T, threads=(2, 65, 200))
    T = []
    for k, order in ((0, 'any'), (3, 'down'), (1, 'sorted')):
        nums = gen.csr_nums(r, 4, 2000000000, wk(r, k), avg=c.n(3000, 20000), dup=0.2, order=order)
        T.append(S(mk('A', 'csr', k, 0, nums), 'dd B A'))
    nums = gen.csr_nums(r, 300, 999, 'n', avg=c.n(240, 500), dup=0.2)
    T.append(S(mk('A', 'csr', 0, 0, nums), 'dd B A'))
    nums = csr_full(r, 8, 200, 250, 65535)
    T += [S(mk('A', 'csr', 8, 0, nums), 'dd B A'), S(mk('A', 'csr', 8, 0, nums), 'sort A')]
    c.go(b, T, threads=(5,))
    c.validate()
