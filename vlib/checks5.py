"""Checks with resources that fail (harness/faults.cpp)."""
from .core import *
from .checks import (Ctx, REGISTRY, check, S, tokens, put, mk, WK, LB, OB, WB)
from .checks2 import ten_nums, made, model_histories, file_history
from .checks3 import mix
from . import gen
from .gen import hx

# what runs out: (kind, how many in a row fail; 0: all of them from there on)
WAYS = [('A', 1), ('A', 0), ('S', 1), ('S', 0)]


def around(r, k, big=1):
    """Objects and files of every kind, so that a change of any of them shows; big: rows of hundreds of entries"""
    w = WK[k]
    return ['watch 1', 'mkdir d', put('a', gen.el_text(r, w, r.choice([1, 3, 6]) * big, top=4) or '1 1' + (' 1' if w != 'n' else '')),
            put('a.mtx', gen.mm_text(r, w, 0, r.choice([1, 3]) * big)), put('a.graph', gen.graph_text(r, 3 * big)),
            put('t', gen.ten_text(r, w, r.choice([1, 2, 3]), r.choice([1, 3]) * big)), put('o', 'x' * r.choice([1, 70])),
            mk('A', 'coo', k, 0, gen.coo_nums(r, 3, r.choice([1, 2, 5]) * big, w)), mk('B', 'coo', k, 0, gen.coo_nums(r, 4, r.choice([1, 3]) * big, w)),
            'mk E coo %d 0' % k,
            mk('C', 'csr', k, 0, gen.csr_nums(r, 3, 5, w, avg=r.choice([1, 3]) * big, dup=r.choice([0, 0.6]))),
            mk('T', 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3]), r.choice([1, 3]) * big, w)), mk('U', 'ten', k, 0, ten_nums(r, 2, 2, w)), 'c2d D A', 'c2g G B',
            'save A sa', 'save C sc', 'save D sd', 'save T st', 'fopen F r a']


def calls(r, k, fl):
    """[(resources, call, what can be done afterwards)]: S calls open files"""
    f = r.choice(fl)
    w = WK[k]
    L = []
    for kind in ('coo', 'csr', 'gra', 'dig', 'mat', 'ten'):
        g = f if kind == 'coo' else 0
        L.append(('AS', 'load R %s %d %d %s NONE' % (kind, k, g, 't' if kind == 'ten' else 'a')))
        if kind not in ('mat', 'ten'):
            L.append(('AS', 'load R %s %d %d a.mtx AUTO' % (kind, k, g)))
            L.append(('AS', 'load R %s %d %d a.graph AUTO' % (kind, k, g if g in (0, 1) else 0)))
            L.append(('A', 'loadf R %s %d %d F EDGE_LIST' % (kind, k, g)))
    for kind, s in (('coo', 'sa'), ('csr', 'sc'), ('gra', 'sc'), ('coo', 'sc'), ('dig', 'sd'), ('ten', 'st')):
        L.append(('AS', 'load R %s %d 0 %s AUTO' % (kind, k, s)))
    L += [('A', 'c2s R A'), ('A', 'c2g R A'), ('A', 'c2d R A'), ('A', 'c2m R B'), ('A', 'copy R A'), ('A', 'copy R T'),
          ('A', 'asg B A'), ('A', 'asg A B'), ('A', 'asg E A'), ('A', 'asg T U'), ('A', 'asg U T'), ('A', 's2c R C %d' % (f if f in (0, 1, 3) else 0)), ('A', 's2c R G 0'),
          ('A', 'dd R C'), ('A', 'sort C'), ('A', 'sort G'), ('A', 'dd R G'), ('A', 'mx T'),
          ('A', 'mk R coo %d 0 2 2 2 1 0 1 %s' % (k, '64' if w != 'n' else '')), ('A', 'mk R csr %d 0 2 2 2 1 3 0 1 1 1 %s' % (k, '64' if w != 'n' else '')),
          ('A', 'mk R ten %d 0 2 1 0 1 %s' % (k, '64' if w != 'n' else '')),
          ('AS', 'guess sa'), ('AS', 'fopen H r a'), ('AS', 'fopen H w h 9'), ('AS', 'fopen H W o 9'), ('AS', 'fopen H R sa')]
    for h in 'ACDT':
        for fn in ('o', 'new'):
            L.append(('AS', 'save %s %s' % (h, fn)))
    for h in 'AT':
        L.append(('AS', 'write %s %s' % (h, r.choice(['o', 'new']))))
    L.append(('A', 'savef C W'))
    return L


def top(kind, call):
    """about how many times the call asks for the resource, and one more"""
    big = call.split()[0] in ('c2d', 'c2m') or ' dig ' in call or ' mat ' in call
    return 13 if kind == 'S' else 45 if big else 24 if call.startswith('load') else 16


def again(call):
    a = call.split()
    if a[0] == 'fopen':                 # another file object, and not on a file open for writing
        return ' '.join(['fopen', 'J', a[2], 'w2' if a[2] in 'wW' else a[3]] + a[4:])
    return call


def after(r, k, call):
    a = call.split()
    ops = []
    if a[0] in ('load', 'loadf', 'c2s', 'c2g', 'c2d', 'c2m', 'copy', 's2c', 'dd', 'mk') and r.random() < 0.6:
        ops.append('free R')
    if a[0] == 'asg':
        ops += r.choice([['free ' + a[1]], ['save %s q' % a[1]], ['copy Q ' + a[1], 'free ' + a[1]], ['free ' + a[1], 'asg %s %s' % (a[1], a[2])], []])
    if a[0] == 'fopen':
        ops += ['freader H' if a[2] in 'rR' else 'fwrite H 61', 'fclose H']
    return ops + r.sample(['save A z', 'load X coo %d 0 sa AUTO' % k, 'c2s X A', 'sort C', 'copy X B', 'write T z', 'fclose F', 'load X csr %d 0 a NONE' % k], 2)


def model_fails(r, k, h):
    """A history of MCFault for configuration k: some resource fails in the calls it marks"""
    ops = ['watch 1', put('a', '0 1\n1 1\n0 0\n'), put('old', 'x'), 'mk A coo %d 0 2 2 2 3 0 1 1 1 0 0' % k, 'mk B coo %d 0 3 3 3 1 2 0' % k]
    for o in h:
        if o[0] == '!':
            o = o[1:]
            kind = r.choice('ASS') if o.split()[0] in ('load', 'save') else 'A'
            ops.append('fail %s %d %d' % (kind, r.randint(1, 11 if kind == 'S' else 7), r.choice([1, 1, 0])))
        ops.append(o.replace('load L coo 0 0', 'load L coo %d 0' % k))
    return ops


def larger(c, b, then):
    """Calls on objects of hundreds of entries, with some resource refused"""
    r = c.r
    T = []
    for k in c.n(r.sample([0, 1, 2, 5, 16], 3), [x[0] for x in b.cfgs]):
        mask = dict((x[0], x[1]) for x in b.cfgs)[k]
        for rep in range(c.n(1, 4)):
            base = around(r, k, r.choice([40, 70]))
            for kinds, call in calls(r, k, [f for f in range(8) if mask >> f & 1]):
                if call.startswith(('mk', 'guess', 'fopen', 'savef')):
                    continue
                for kind in kinds:
                    for n in {r.choice([1, 1, 2, 3])} | set(r.sample(range(1, top(kind, call)), c.n(2, 8))):
                        T.append(S(*(base + ['fail %s %d %d' % (kind, n, r.choice([1, 1, 0])), call] + then(call))))
    return T


def full_disk(r, k, pages):
    """Files made on a disk of so many pages, which often has no room for them"""
    w = WK[k]
    m = lambda: r.choice([1, 5, 200, 450, 500, 510, 512, 700, 1100])
    ops = ['watch 1']
    H = []
    for h in 'ABC'[:r.randint(1, 3)]:
        kind = r.choice(['coo', 'coo', 'csr', 'ten', 'dig', 'gra'])
        if kind == 'csr':
            ops.append(mk(h, 'csr', k, 0, gen.csr_nums(r, r.choice([3, 90, 400]), 90, w, avg=r.choice([1, 3, 5]))))
        elif kind == 'ten':
            ops.append(mk(h, 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3]), m(), w)))
        else:
            ops.append(mk(h, 'coo', k, 0, gen.coo_nums(r, r.choice([5, 60, 300]), m(), w)))
            if kind in ('dig', 'gra'):
                ops.append('c2%s %s1 %s' % (kind[0], h, h))
                h = h + '1'
        H.append((h, kind))
    opened = []
    for i in range(r.randint(2, 6)):
        x = r.random()
        h, kind = r.choice(H)
        fn = r.choice(['o', 'p', 'q'])
        if x < 0.25:
            ops.append(put('f%d' % r.randint(0, 1), 'x' * r.choice([1, 3000, 4096, 4097, 9000])))
        elif x < 0.35:
            ops.append(r.choice(['rm f0', 'rm f1', 'rm o', 'rm p']))
        elif x < 0.75 or kind not in ('coo', 'ten'):
            ops.append('save %s %s' % (h, fn))
            if r.random() < 0.4:
                ops.append('load L%d %s %d 0 %s AUTO' % (i, kind, k, fn))
        elif x < 0.92:
            ops.append('write %s %s' % (h, fn))
        else:
            n = r.choice([1, 4096, 4097, 12000])
            ops += ['fopen W%d %s w%d %d' % (i, r.choice('wW'), i, n), 'fwrite W%d 61' % i, 'fseek W%d %d' % (i, n - 1), 'fwrite W%d 62' % i]
            if r.random() < 0.6:
                ops.append('fclose W%d' % i)
    return ops


@check('C24')
def c24(c):
    r = c.r
    ks = [0, 1, 2, 3, 4, 5]
    M = c.build('m', [(k, 11 if k in (0, 1) else 1) for k in ks] + [(15, 1), (16, 1), (12, 1), (18, 1)], faults=True)
    A = c.build('asan', [(0, 3), (1, 1), (3, 1), (5, 1)], faults=True, extra=['-g', '-fsanitize=address', '-fno-omit-frame-pointer'], opt='-O1')
    A.link = A.link + ['-fsanitize=address']
    mod = model_histories(c, 'MCFault', 3)
    build_all([M, A])
    asan = [{'ASAN_OPTIONS': 'detect_leaks=0:symbolize=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:handle_abort=0', 'VERIF_MEMORY_MB': '0'}]
    # histories of the model
    T = []
    for h in r.sample(mod, min(len(mod), c.n(1200, 4700))):
        T.append(S(*model_fails(r, r.choice([0, 2, 4, 15, 16]), h)))
    c.go(M, T, threads=(1, 3))
    # each resource in turn, for every call
    for b, ks_, envs in ((M, c.n([0, 1, 2, 5, 16], [x[0] for x in M.cfgs]), None), (A, c.n([0, 3], [x[0] for x in A.cfgs]), asan)):
        T = []
        for k in ks_:
            mask = dict((x[0], x[1]) for x in b.cfgs)[k]
            fl = [f for f in range(8) if mask >> f & 1]
            for rep in range(c.n(1, 4)):
                base = around(r, k)
                for kinds, call in calls(r, k, fl):
                    for kind, count in WAYS:
                        if kind not in kinds:
                            continue
                        for n in range(1, top(kind, call)):
                            if c.quick and (b is A or count == 0) and r.random() < 0.5:
                                continue
                            pre = ['fopen W w w 400'] if call.startswith('savef') else []
                            T.append(S(*(base + pre + ['fail %s %d %d' % (kind, n, count), call, again(call)] + after(r, k, call))))
        c.go(b, T, threads=c.n((r.choice([2, 3, 4]),), (1, 3, 8)), envs=envs)
    # the same with larger objects: long rows, many lines, many tens of entries a thread
    c.go(M, larger(c, M, lambda call: [call] + after(r, 0, call)), threads=c.n((r.choice([2, 3, 4]),), (1, 3, 8)))
    # anything, with failures anywhere
    T = []
    for i in range(c.n(600, 8000)):
        k, mask = r.choice(M.cfgs)[:2]
        ops = ['watch 1']
        for o in mix(r, k, [f for f in range(8) if mask >> f & 1]):
            if r.random() < 0.5:
                ops.append('fail %s %d %d' % (r.choice('AAS'), r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11]), r.choice([1, 1, 0])))
            ops.append(o)
        T.append(S(*ops))
    c.go(M, T, threads=(1, 4))
    # a disk without room for what is saved or written
    for pages in c.n((3, 6), (1, 2, 3, 4, 6, 9)):
        T = [S(*full_disk(r, r.choice([0, 1, 2, 3, 4, 5]), pages)) for i in range(c.n(150, 600))]
        c.go(M, T, threads=(r.choice([1, 2]), r.choice([3, 5])), envs=[{'VERIF_DISK_PAGES': str(pages)}])
    c.notes.append('calls on a disk of our own that may be full: %d'
                   % sum('"room":' in e for x in c.val.pending for e in x.events))
    c.validate()


def bad_inputs(r, k, f):
    """(file name, content, how it is loaded): texts and binaries that are refused, some late"""
    w = WK[k]
    x = r.random()
    kinds = ['coo', 'csr', 'gra', 'dig', 'mat', 'ten']
    if x < 0.2:
        return [put('a', gen.el_text(r, w, r.choice([1, 3, 8]), top=5) + r.choice(['\n1\n', '\n7 ', '\n1 2\n' if w != 'n' else '\n1\n', '']))], 'a', r.choice(['NONE', 'EDGE_LIST']), kinds
    if x < 0.4:
        return [put('a.mtx', gen.mm_text(r, w, f, r.choice([0, 1, 3, 6]), top=4, wrong=0.8))], 'a.mtx', r.choice(['AUTO', 'MATRIX_MARKET']), kinds[:4]
    if x < 0.6:
        return [put('a.graph', gen.graph_text(r, r.choice([1, 3, 6]), wrong=0.8))], 'a.graph', r.choice(['AUTO', 'GRAPH']), kinds[:4]
    if x < 0.7:
        return [put('a', gen.ten_text(r, w, r.choice([1, 2, 3]), r.choice([1, 4])) + r.choice(['\n1\n', '\n2 2 2 2 2 2 2\n', '']))], 'a', 'NONE', ['ten']
    kind = r.choice(['coo', 'csr', 'dig', 'ten'])
    ops = made(r, kind, k, r.choice([1, 2, 5])) + ['save A s']
    y = r.random()
    # a changed byte leaves the weights and the upper bytes of numbers alone: an object of millions of rows is slow to tell of
    at = r.choice([r.randint(0, 13), 14 + LB[k] * r.randint(0, 4), 14 + 3 * LB[k] + r.randint(0, OB[k] - 1), 14 + 3 * LB[k] + OB[k] + LB[k] * r.randint(0, 2)])
    ops.append('cut s %d' % r.randint(1, 200) if y < 0.4 else 'byte s %d %d' % (13 if w == 'f' and at > 32 else at, r.choice([0, 1, 2, 4, 8, 127])) if y < 0.8
               else 'add s 00ff01')
    return ops, 's', r.choice(['AUTO', 'AUTO', 'NONE', {'coo': 'PIGO_COO_BIN', 'csr': 'PIGO_CSR_BIN', 'dig': 'PIGO_DIGRAPH_BIN', 'ten': 'PIGO_TENSOR_BIN'}[kind]]), [kind, kind, r.choice(kinds[:4] + ['ten'])]


def anything(r, k, mask):
    """A history of any kind: a pipeline, calls that are refused, every kind of object"""
    fl = [f for f in range(8) if mask >> f & 1]
    x = r.random()
    if x < 0.35:
        return mix(r, k, fl)
    ops = []
    if x < 0.75:
        for j in range(r.choice([1, 1, 2])):
            f = r.choice(fl)
            a, fn, ft, kinds = bad_inputs(r, k, f)
            kind = r.choice(kinds)
            ops += a
            if r.random() < 0.15 and kind != 'mat':
                ops += ['fopen F%d r %s' % (j, fn), 'loadf L%d %s %d %d F%d %s' % (j, kind, k, f if kind == 'coo' else 0, j, 'EDGE_LIST' if ft == 'NONE' else ft)]
            else:
                ops.append('load L%d %s %d %d %s %s' % (j, kind, k, f if kind == 'coo' else 0, fn, 'NONE' if kind == 'mat' else ft))
        return ops
    ops = around(r, k)
    for j in range(r.choice([1, 2, 4])):
        ops.append(r.choice([q for _, q in calls(r, k, fl) if not q.startswith(('savef', 'fopen'))]))
    return ops


@check('C25')
def c25(c):
    r = c.r
    M = c.build('m', [(0, 255), (1, 11), (2, 1), (3, 1), (4, 1), (5, 1), (15, 1), (16, 1), (12, 1), (18, 1), (13, 1), (14, 1)], faults=True)
    A = c.build('asan', [(0, 3), (1, 1), (3, 1), (5, 1)], faults=True, extra=['-g', '-fsanitize=address', '-fno-omit-frame-pointer'], opt='-O1')
    A.link = A.link + ['-fsanitize=address']
    asan = [{'ASAN_OPTIONS': 'detect_leaks=0:symbolize=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=0:handle_abort=0', 'VERIF_MEMORY_MB': '0'}]
    hist = model_histories(c, 'MCHist', c.n(4, 5))
    mod = model_histories(c, 'MCFault', 3)
    fil = model_histories(c, 'MCFile', 4)
    build_all([M, A])
    # histories of the models
    T = []
    for h in r.sample(hist, min(len(hist), c.n(1000, 20000))):
        k = r.choice([0, 0, 15, 16])
        T.append(S(*([re.sub(r'^(mk \w+ \w+) 0 ', r'\1 %d ' % k, o) for o in h] + ['leave'])))
    for h in r.sample(fil, min(len(fil), c.n(300, 5000))):
        T.append(S(*(list(h) + ['leave'])))
    for h in r.sample(mod, min(len(mod), c.n(500, 4700))):
        T.append(S(*(model_fails(r, r.choice([0, 0, 15, 16]), h) + ['leave'])))
    for i in range(c.n(300, 3000)):
        T.append(S(*(file_history(r) + ['leave'])))
    c.go(M, T, threads=(1, 3))
    for b, n, envs in ((M, c.n(1500, 15000), None), (A, c.n(250, 6000), asan)):
        c.go(b, [S(*(anything(r, *r.choice(b.cfgs)[:2]) + ['leave'])) for i in range(n)], threads=(1, 3), envs=envs)
    # when a resource fails within a call, what the call holds up to then is given back
    T = []
    for k in c.n([0, 1, 2, 5, 16], [x[0] for x in M.cfgs]):
        mask = dict((x[0], x[1]) for x in M.cfgs)[k]
        fl = [f for f in range(8) if mask >> f & 1]
        for rep in range(c.n(1, 4)):
            base = around(r, k)
            for kinds, call in calls(r, k, fl):
                for kind, count in WAYS:
                    if kind not in kinds:
                        continue
                    for n in range(1, top(kind, call)):
                        if c.quick and r.random() < (0.85 if count == 0 else 0.5):
                            continue
                        pre = ['fopen W w w 400'] if call.startswith('savef') else []
                        T.append(S(*(base + pre + ['fail %s %d %d' % (kind, n, count), call, 'leave'])))
    T += larger(c, M, lambda call: ['leave'])
    c.go(M, T, threads=c.n((r.choice([1, 2, 3]),), (1, 3, 8)))
    c.validate()
