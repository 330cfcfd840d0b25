"""More checks: output, binary forms, errors, detection, histories, files,
scanning, views, numbers, traces left behind, configurations, pipelines."""
import itertools, os, random, re, shutil, struct, subprocess
from .core import *
from .models import Models
from .checks import (Ctx, REGISTRY, check, S, tokens, put, mk, WK, LB, OB, WB, SIGNED_L, lmax,
                     wide_label, wide_weight, wk, NARROW, ntop, nlen)
from . import gen
from .gen import hx


def ten_nums(r, order, m, w, top=9):
    a = [str(order), str(m)]
    for _ in range(m):
        a += [str(r.randint(0, top)) for _ in range(order)] + gen.wval(r, w)
    return a


# ---------------------------------------------------------------------------
@check('C09')
def c09(c):
    wide = [8, 9, 10, 11, 12, 6, 7, 5, 20, 21, 22, 23]
    b = c.build('m', [(0, 1), (1, 1), (3, 1), (14, 1)] + [(k, 1) for k in wide])
    mod = Models(c, [('ParLines', {'LEN': c.n(4, 6), 'TEAM': c.n(3, 4)}), ('ParLines', {'LEN': c.n(3, 4), 'TEAM': 2, 'ORDER': 'all'})])
    build_all([b])
    r = c.r
    mod.rows()
    T = []
    for i in range(c.n(700, 7000)):
        k = r.choice([0, 1, 3, 14])
        m = r.choice([0, 1, 1, 2, 3, 5, 9, 20])
        fn = r.choice(['o', 'o', 'o.x'])
        pre = [put(fn, ''.join(r.choice('12 \n#') for _ in range(r.choice([1, 5, 400]))))] if r.random() < 0.5 else []
        if r.random() < 0.6:
            ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([1, 9, 10, 11, 1000, 100001]), m, wk(r, k))),
                   'write A ' + fn, 'load B coo %d 0 %s EDGE_LIST' % (k, fn)]
        else:
            ops = [mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3, 4, 5]), m, wk(r, k), r.choice([9, 10, 99, 123456]))),
                   'write A ' + fn, 'load B ten %d 0 %s EDGE_LIST' % (k, fn)]
        T.append(S(*(pre + ops)))
    for i in range(c.n(200, 2000)):
        k = r.choice([0, 1, 3])
        T.append(S(put('a', gen.el_text(r, WK[k], r.choice([1, 3, 9]), top=r.choice([3, 200]))), 'load A coo %d 0 a EDGE_LIST' % k,
                   'write A o', 'load B coo %d 0 o AUTO' % k, 'write B p'))
    # sizes around a power of ten of entries, more than a page of text
    for m in c.n([99, 100, 777, 5000], [99, 100, 777, 1000, 3000, 4096, 4097, 5000, 12000]):
        T.append(S(mk('A', 'coo', 1, 0, gen.coo_nums(r, 100001, m, 'f')), 'write A o', 'load B coo 1 0 o EDGE_LIST'))
        T.append(S(mk('A', 'ten', 0, 0, ten_nums(r, 3, m // 2, 'n', 99999)), 'write A o', 'load B ten 0 0 o EDGE_LIST'))
    c.go(b, T, threads=(1, 2, 3, 4, 5, 8, 16, 40))
    T = []
    for i in range(c.n(60, 600)):
        k = r.choice(NARROW)
        if r.random() < 0.5:
            T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, ntop(k), nlen(r, k), wk(r, k))), 'write A o', 'load B coo %d 0 o EDGE_LIST' % k))
        else:
            T.append(S(mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 3, 20, 100]), nlen(r, k), wk(r, k), ntop(k))), 'write A o', 'load B ten %d 0 o EDGE_LIST' % k))
    c.go(b, T, threads=(1, 3, 8))
    # more threads than entries, and very many entries
    T = []
    for i in range(c.n(40, 400)):
        k = r.choice([0, 1, 3, 14])
        m = r.choice([1, 2, 30, 64, 66, 150])
        if r.random() < 0.5:
            T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([9, 11, 1000]), m, wk(r, k))), 'write A o', 'load B coo %d 0 o EDGE_LIST' % k))
        else:
            T.append(S(mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 3, 20]), m, wk(r, k))), 'write A o', 'load B ten %d 0 o EDGE_LIST' % k))
    c.go(b, T, threads=(65, 130, 300))
    T = []
    for m in c.n([180000], [33000, 66000, 180000, 300000]):
        T.append(S(mk('A', 'coo', 0, 0, gen.coo_nums(r, 30, m, 'n')), 'write A o'))
        T.append(S(mk('A', 'ten', 0, 0, ten_nums(r, 1, m, 'n')), 'write A o'))
    c.go(b, T, threads=(1, 5, 8))
    T = []
    for i in range(c.n(500, 5000)):
        k = r.choice(wide)
        m = r.choice([1, 1, 2, 3, 7])
        if r.random() < 0.5:
            nums = ['1', '1', '1', str(m)]
            for _ in range(m):
                nums += [str(wide_label(r, k, lmax(k) - 1)), str(wide_label(r, k, lmax(k) - 1))] + wide_weight(r, k)
            T.append(S(mk('A', 'coo', k, 0, nums), 'write A o', 'load B coo %d 0 o EDGE_LIST' % k, mode='wide'))
        else:
            o = r.choice([1, 2, 3])
            nums = [str(o), str(m)]
            for _ in range(m):
                nums += [str(wide_label(r, k)) for _ in range(o)] + wide_weight(r, k)
            T.append(S(mk('A', 'ten', k, 0, nums), 'write A o', 'load B ten %d 0 o EDGE_LIST' % k, mode='wide'))
    c.go(b, T, threads=(1, 2, 3, 5))
    c.validate()


def raw_tok(r, b, v=None):
    if v is None:
        x = r.random()
        if x < 0.2:
            return ('00' * b)
        if x < 0.4:
            return 'ff' * b
        return bytes(r.randrange(256) for _ in range(b)).hex()
    return v.to_bytes(b, 'little').hex()


def raw_w(r, k):
    return [] if WK[k] == 'n' else [raw_tok(r, WB[k])]


def csr_size(k, rows, m):
    return 11 + 2 + 3 * LB[k] + OB[k] + OB[k] * (rows + 1) + (LB[k] + (WB[k] if WK[k] != 'n' else 0)) * m


def several_in_one(r, k):
    """Row formats saved one after the other (or over each other) into an open file"""
    ops, sizes = [], []
    same = {15: 0, 0: 15, 16: 0, 17: 1, 1: 17}
    objs = r.randint(1, 3)
    for i in range(objs):
        h = 'ABC'[i]
        x = r.random()
        if x < 0.1:
            ops.append('mk %s csr %d 0' % (h, k))
            sizes.append(csr_size(k, 0, 0))
        elif x < 0.7:
            nums = gen.csr_nums(r, r.choice([1, 2, 5]), r.choice([1, 4, 90]), wk(r, k), one=r.random() < 0.25)
            ops.append(mk(h, 'csr', k, 0, nums))
            sizes.append(csr_size(k, max(int(nums[0]), int(nums[1])), int(nums[3])))
        else:
            nums = gen.coo_nums(r, r.choice([1, 4, 9]), r.choice([0, 1, 5]), wk(r, k))
            ops += [mk('Z', 'coo', k, 0, nums), '%s %s Z' % (r.choice(['c2s', 'c2g']), h)]
            sizes.append(csr_size(k, max(int(nums[0]), int(nums[1])), int(nums[3])))
    total = sum(sizes)
    space = total + r.choice([0, 0, 0, 5, -1, -r.randint(1, total - 1)])
    ops.append('fopen F w s %d' % space)
    starts = []
    p = 0
    for i in range(objs):
        if r.random() < 0.15:
            ops.append('fwrite F %s' % ('07' * 2))
            p += 2
        starts.append(p)
        ops.append('savef %s F' % 'ABC'[i])
        p += sizes[i]
    if r.random() < 0.2:
        ops += ['fseek F %d' % r.choice(starts), 'savef %s F' % r.choice('ABC'[:objs])]
    ops += ['fclose F', 'fopen G r s']
    if r.random() < 0.4:
        starts = r.sample(starts, len(starts))
    for q in starts:
        ops += ['fseek G %d' % q, 'loadf %s %s %d 0 G %s' % (r.choice('DE'), r.choice(['csr', 'csr', 'gra', 'coo']), r.choice([k, same.get(k, k)]),
                                                             r.choice(['PIGO_CSR_BIN', 'PIGO_CSR_BIN', 'AUTO']))]
    if r.random() < 0.5:
        ops += ['fseek G 0'] + ['loadf D csr %d 0 G PIGO_CSR_BIN' % k for _ in range(objs)]
    return ops + ['fclose G']


@check('C10')
def c10(c):
    ks = list(range(0, 24))
    b = c.build('m', [(k, 9 if k in (0, 1) else 1) for k in ks])
    build_all([b])
    r = c.r
    T = []
    same = [(0, 0), (0, 15), (0, 16), (15, 0), (16, 15), (1, 1), (1, 17), (17, 14), (14, 1), (3, 3)]
    for i in range(c.n(600, 6000)):
        k, k2 = r.choice(same)
        pre = [put('s', ''.join(r.choice('PIGO-\n1') for _ in range(r.choice([1, 7, 900]))))] if r.random() < 0.4 else []
        ft = lambda t: r.choice(['AUTO', 'NONE', t, t])
        x = r.random()
        if x < 0.3:
            ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([1, 4, 300, 70000]), r.choice([0, 1, 2, 5, 17]), wk(r, k),
                                                      spare=r.choice([0, 2])))] if r.random() < 0.95 else ['mk A coo %d 0' % k]
            ops += ['save A s', 'load B coo %d 0 s %s' % (k2, ft('PIGO_COO_BIN'))]
            if r.random() < 0.3:
                ops += ['load C %s %d 0 s AUTO' % (r.choice(['csr', 'gra', 'dig']), k2)]
        elif x < 0.55:
            ops = [mk('A', 'csr', k, 0, gen.csr_nums(r, r.choice([1, 2, 5, 9]), r.choice([1, 4, 70000]), wk(r, k),
                                                      one=r.random() < 0.25))] if r.random() < 0.95 else ['mk A csr %d 0' % k]
            ops += ['save A s', 'load B %s %d 0 s %s' % (r.choice(['csr', 'gra']), k2, ft('PIGO_CSR_BIN'))]
            if r.random() < 0.3:
                ops += ['load C %s %d 0 s AUTO' % (r.choice(['coo', 'dig']), k2)]
        elif x < 0.75:
            ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, r.choice([1, 4, 9]), r.choice([0, 1, 5, 17]), wk(r, k), rect=r.random() < .3)),
                   'c2d D A', 'save D s', 'load B dig %d 0 s %s' % (k2, ft('PIGO_DIGRAPH_BIN'))]
        else:
            ops = [mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3, 6]), r.choice([0, 1, 2, 9]), wk(r, k)))] \
                if r.random() < 0.95 else ['mk A ten %d 0' % k]
            ops += ['save A s', 'load B ten %d 0 s %s' % (k2, ft('PIGO_TENSOR_BIN'))]
        if r.random() < 0.3 and ops[-1].startswith('load B'):
            ops += ['save B t']
        T.append(S(*(pre + ops)))
    # sequential coordinates in one open file
    for i in range(c.n(40, 400)):
        k = r.choice([0, 1, 3])
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, 9, r.choice([0, 3, 8]), wk(r, k))), 'save A s', 'fopen F r s',
                   'loadf B coo %d 0 F %s' % (k, r.choice(['PIGO_COO_BIN', 'AUTO'])), 'fseek F 0',
                   'loadf C %s %d 0 F PIGO_COO_BIN' % (r.choice(['coo', 'csr', 'gra', 'dig']), k), 'fclose F'))
    # several objects in one file, in any order of reading, and files too short for the last
    for i in range(c.n(160, 1600)):
        T.append(S(*several_in_one(r, r.choice([0, 1, 3, 4, 9, 15, 17]))))
    # large enough to be cut into many blocks
    for m in c.n([4001], [1, 500, 4097, 9001, 12345]):
        T.append(S(mk('A', 'coo', 0, 0, gen.coo_nums(r, 5000, m, 'n')), 'save A s', 'load B coo 15 0 s PIGO_COO_BIN'))
        T.append(S(mk('A', 'ten', 1, 0, ten_nums(r, 3, m, 'f')), 'save A s', 'load B ten 1 0 s PIGO_TENSOR_BIN'))
        T.append(S(mk('A', 'csr', 1, 0, gen.csr_nums(r, m, 999, 'f', avg=1)), 'save A s', 'load B csr 17 0 s PIGO_CSR_BIN'))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16, 40))
    T = []
    for i in range(c.n(80, 800)):
        k = r.choice(NARROW)
        kind = r.choice(['coo', 'csr', 'csr', 'ten', 'dig'])
        if kind == 'csr':
            rows = r.choice([3, 100, min(ntop(k), 250), 250 if OB[k] == 1 else min(ntop(k), 4000)])
            rows = min(rows, ntop(k))
            ops = [mk('A', 'csr', k, 0, gen.csr_nums(r, rows, ntop(k), wk(r, k), avg=0 if OB[k] == 1 and rows > 60 else 1)), 'save A s']
            m = int(ops[0].split()[8])
            if OB[k] == 1 and m > 250:
                continue
        elif kind == 'ten':
            ops = [mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 3, 20, 100]), nlen(r, k), wk(r, k), ntop(k))), 'save A s']
        else:
            ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, min(ntop(k), 4000), nlen(r, k), wk(r, k))), 'save A s']
            if kind == 'dig':
                ops[1:] = ['c2d D A', 'save D s']
        T.append(S(*(ops + ['load B %s %d 0 s AUTO' % (kind, k)])))
    c.go(b, T, threads=(1, 3, 8))
    # more threads than bytes, and very many entries
    # (GCC 13 runs loops over 8-bit variables wrongly in teams of more than 127)
    T = []
    for i in range(c.n(40, 400)):
        k = r.choice([0, 1, 3, 9, 15])
        m = r.choice([0, 1, 2, 30, 64, 66])
        kind = r.choice(['coo', 'csr', 'ten', 'dig'])
        ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, 9, m, wk(r, k))), 'c2d D A', 'save D s', 'load B dig %d 0 s AUTO' % k] if kind == 'dig' else \
            [mk('A', kind, k, 0, gen.coo_nums(r, 9, m, wk(r, k)) if kind == 'coo' else ten_nums(r, r.choice([1, 3, 20]), m, wk(r, k)) if kind == 'ten'
                else gen.csr_nums(r, r.choice([1, 9, 64]), 9, wk(r, k))), 'save A s', 'load B %s %d 0 s AUTO' % (kind, k)]
        T.append(S(*ops))
    c.go(b, T, threads=(65, 130, 300))
    T = []
    T.append(S(mk('A', 'coo', 0, 0, gen.coo_nums(r, 250, 140000, 'n')), 'save A s', 'load B coo 0 0 s PIGO_COO_BIN'))
    T.append(S(mk('A', 'coo', 8, 0, gen.coo_nums(r, 250, 65535, 'u8')), 'save A s', 'load B coo 8 0 s PIGO_COO_BIN'))
    for m in c.n([70000], [66000, 70000, 140000]):
        T.append(S(mk('A', 'coo', 10, 0, gen.coo_nums(r, 100, m, 'i8')), 'save A s', 'load B coo 10 0 s PIGO_COO_BIN'))
        T.append(S(mk('A', 'ten', 10, 0, ten_nums(r, 1, m, 'i8')), 'save A s', 'load B ten 10 0 s PIGO_TENSOR_BIN'))
        T.append(S(mk('A', 'csr', 10, 0, gen.csr_nums(r, 100, 100, 'i8', avg=1, long_row=m)), 'save A s', 'load B csr 10 0 s PIGO_CSR_BIN'))
    c.go(b, T, threads=(5, 8))
    T = []
    for i in range(c.n(800, 8000)):
        k = r.choice(ks)
        L, O = LB[k], OB[k]
        m = r.choice([0, 1, 1, 2, 3, 7])
        x = r.random()
        if x < 0.4:
            nums = [raw_tok(r, L) for _ in range(3)] + [str(m)]
            for _ in range(m):
                nums += [raw_tok(r, L), raw_tok(r, L)] + raw_w(r, k)
            T.append(S(mk('A', 'coo', k, 0, nums), 'save A s', 'load B coo %d 0 s AUTO' % k, mode='raw'))
        elif x < 0.7:
            rows = r.choice([0, 1, 2, 5])
            n = r.choice([rows, rows, max(0, rows - 1)])
            nums = [raw_tok(r, L, n), raw_tok(r, L, rows), raw_tok(r, L), str(m), str(rows + 1)]
            nums += [raw_tok(r, O) for _ in range(rows + 1)]
            for _ in range(m):
                nums += [raw_tok(r, L)] + raw_w(r, k)
            T.append(S(mk('A', 'csr', k, 0, nums), 'save A s', 'load B csr %d 0 s AUTO' % k, mode='raw'))
        else:
            o = r.choice([1, 2, 3])
            nums = [str(o), str(m)]
            for _ in range(m):
                nums += [raw_tok(r, L) for _ in range(o)] + raw_w(r, k)
            T.append(S(mk('A', 'ten', k, 0, nums), 'save A s', 'load B ten %d 0 s AUTO' % k, mode='raw'))
    c.go(b, T, threads=(1, 3, 8))
    c.validate()


KINDS = ['coo', 'csr', 'gra', 'dig', 'ten']
TYPES = ['MATRIX_MARKET', 'EDGE_LIST', 'PIGO_COO_BIN', 'PIGO_CSR_BIN', 'PIGO_DIGRAPH_BIN', 'PIGO_TENSOR_BIN', 'GRAPH', 'AUTO', 'NONE']
BINTYPE = {'coo': 'PIGO_COO_BIN', 'csr': 'PIGO_CSR_BIN', 'dig': 'PIGO_DIGRAPH_BIN', 'ten': 'PIGO_TENSOR_BIN'}
HEADERS = {'coo': b'PIGO-COO-v1', 'csr': b'PIGO-CSR-v2', 'dig': b'PIGO-DiGraph-v1', 'ten': b'PIGO-Tensor-2'}
GOON = [put('z', '1 2 3\n0 1 4\n'), 'load Z coo %d 0 z EDGE_LIST', 'c2s Y Z', 'save Y zs']


def made(r, kind, k, m=None):
    """operations that leave an object A of this kind"""
    m = r.choice([0, 1, 3]) if m is None else m
    if kind == 'ten':
        return [mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 2, 3]), m, WK[k]))]
    if kind == 'csr':
        return [mk('A', 'csr', k, 0, gen.csr_nums(r, r.choice([1, 2, 4]), 4, WK[k]))]
    ops = [mk('X' if kind == 'dig' else 'A', 'coo', k, 0, gen.coo_nums(r, 4, m, WK[k]))]
    return ops + (['c2d A X'] if kind == 'dig' else [])


def crowded(r, count, ks=(20, 22), bigs=(0, 4, 2, 15)):
    """More entries, or lines, than the types can count (and just as many); sizes that no file of that length has"""
    T = []
    for i in range(count):
        k = r.choice(ks)
        w = WK[k]
        m = r.choice([r.randint(100, 140), r.randint(250, 260), r.randint(250, 260), r.randint(500, 520), r.randint(200, 900)])
        kind = r.choice(['coo', 'coo', 'coo', 'csr', 'gra', 'dig', 'mat', 'ten', 'graph', 'mm'])
        fl = r.choice([0, 1, 2, 3, 4, 7, 1])
        x = r.random()
        lab = lambda lo=0: r.randint(lo, r.choice([3, 30]))
        wt = lambda: ' %d' % r.randint(0, 99) if w != 'n' else ''
        if kind == 'graph' and w == 'n':
            n = r.choice([1, 2, 5, 60])
            cuts = sorted(r.randint(0, m) for _ in range(n - 1))
            rows = [b - a for a, b in zip([0] + cuts, cuts + [m])]
            t = '%d %d\n' % (n, m) + ''.join(' '.join(str(lab(r.choice([0, 1]))) for _ in range(d)) + '\n' for d in rows)
            T.append(S(put('a', t), 'load A %s %d %d a GRAPH' % (r.choice(['coo', 'csr', 'gra']), k, 0)))
        elif kind == 'ten':
            order = r.choice([1, 2, 3]) if r.random() < 0.8 else r.randint(250, 260)
            t = ''.join(' '.join(str(lab()) for _ in range(order)) + wt() + '\n' for _ in range(m if order < 9 else 2))
            T.append(S(put('a', t), 'load A ten %d 0 a EDGE_LIST' % k))
        elif kind == 'mm':
            t = '%%%%MatrixMarket matrix coordinate\n31 31 %d\n' % min(m, 255) + ''.join('%d %d%s\n' % (lab(1), lab(1), wt()) for _ in range(m))
            T.append(S(put('a', t), 'load A coo %d %d a MATRIX_MARKET' % (k, fl)))
        elif x < 0.3:
            # the mirrored entries, or those of a type that counts further, do not fit
            m = r.choice([r.randint(120, 135), r.randint(200, 255)])
            T.append(S(mk('A', 'csr', k, 0, gen.csr_nums(r, 40, 40, w, avg=m // 28)), 's2c B A 1', 's2c C A 3', 's2c D A 0'))
        elif x < 0.5:
            T.append(S(mk('A', 'coo', 0, 0, gen.coo_nums(r, r.choice([3, 40, 300]), m, 'n')), 'c2s B A 22', 'c2s C A', 's2c D C 0 22', 'dd E C 22', 'dd F C'))
        elif x < 0.55:
            n = r.choice([32766, 32767, 70000, 65537])
            T.append(S(mk('A', 'coo', 0, 0, gen.coo_nums(r, n, 3, 'n')), 'c2s B A 22', 'c2s C A', 's2c D C 0 22', 'dd E C 22'))
        else:
            t = ''.join('%d %d%s\n' % (lab(), lab(), wt()) for _ in range(m))
            T.append(S(put('a', t), 'load A %s %d %d a EDGE_LIST' % (kind if kind not in ('graph', 'mm') else 'coo', k, fl if kind == 'coo' else 0)
                       if kind != 'mat' else 'load A mat %d 0 a NONE' % k))
    big = {4: ['4294967295', '4294967294', '2147483648', '3000000000'], 8: ['18446744073709551615', '18446744073709551614', '9223372036854775808', '99999999999']}
    for k in bigs:
        for n in big[LB[k]] + ['1', '2', '9']:
            for m in ['0', '2', '1'] + big[OB[k]] + [str((1 << (8 * OB[k] - 1)) + d) for d in (1, 2)]:
                if len(n + m) > 2 and r.random() < 0.5:
                    body = r.choice(['', '\n', '1\n', '1\n1\n', '0\n', '1 2\n\n', '1 1\n0 2'])
                    T.append(S(put('a', n + ' ' + m + '\n' + body), 'load A %s %d 0 a GRAPH' % (r.choice(['csr', 'gra', 'coo']), k)))
                if r.random() < 0.15:
                    T.append(S(put('a', '%%MatrixMarket matrix coordinate\n2 2 ' + m + '\n' + r.choice(['', '1 2', '1 1\n2 2'])),
                               'load A coo %d 0 a MATRIX_MARKET' % k))
    return T


def brink(r, count, ks=(8, 10, 21, 21, 22)):
    """Labels and sizes about as large as narrow types hold"""
    T = []
    for i in range(count):
        k = r.choice(ks)
        w = WK[k]
        top = lmax(k)
        big = LB[k] == 1
        near = lambda: top + r.choice([-2, -1, -1, -1, 0, 0, 1])
        lab = lambda: near() if r.random() < 0.3 else r.randint(0, min(top, 300))
        wt = lambda: ' %d' % r.randint(0, 99) if w != 'n' else ''
        m = r.choice([1, 1, 2, 5])
        fl = r.choice([0, 1, 2, 3, 4, 7])
        kind = r.choice(['el', 'el', 'mm', 'mm', 'graph', 'ten']) if k == 22 or big else 'el'
        body = ''.join('%d %d%s\n' % (lab(), lab(), wt()) for _ in range(m))
        if kind == 'el':
            o = r.choice(['coo', 'csr', 'gra', 'dig', 'mat']) if big and r.random() < 0.5 else 'coo'
            T.append(S(put('a', body), 'load A %s %d %d a %s' % (o, k, fl if o == 'coo' else 0, 'NONE' if o == 'mat' else 'EDGE_LIST'),
                       *(['c2s B A', 's2c C B 0', 'dd D B'] if o == 'coo' and big else [])))
        elif kind == 'mm':
            T.append(S(put('a', '%%%%MatrixMarket matrix coordinate\n%d %d %d\n' % (near(), r.choice([near(), 9]), m) + body),
                       'load A coo %d %d a MATRIX_MARKET' % (k, fl)))
        elif kind == 'ten':
            T.append(S(put('a', body), 'load A ten %d 0 a EDGE_LIST' % k, 'write A o'))
        elif w == 'n':
            n = near() if big else r.choice([1, 2, 9])
            rows = [' '.join(str(max(r.choice([0, 1]), lab())) for _ in range(r.choice([0, 0, 1, 2]))) for _ in range(n + r.choice([-1, 0, 0, 0, 1]))]
            T.append(S(put('a', '%d %d\n' % (n, sum(len(x.split()) for x in rows)) + ''.join(x + '\n' for x in rows)),
                       'load A %s %d 0 a GRAPH' % (r.choice(['csr', 'coo', 'gra']), k)))
    return T


@check('C11')
def c11(c):
    ks = [0, 1, 2, 3, 4, 5, 8, 10, 13, 14, 19]
    b = c.build('m', [(k, 255 if k in (0, 1, 8, 10) else 1) + ((['-DCROSS=22'],) if k == 0 else ()) for k in ks] + [(15, 1), (20, 255), (21, 255), (22, 255)])
    build_all([b])
    r = c.r
    T = []
    goon = lambda k: [o % k if '%' in o else o for o in GOON]
    # every cut of a binary
    for kind in ('coo', 'csr', 'dig', 'ten'):
        for k in c.n([0, 1, 3, 10], ks):
            for rep in range(c.n(1, 3)):
                mkops = made(r, kind, k, m=r.choice([1, 2, 3]))
                est = 130 + 60 * LB[k]
                for cut in range(0, est):
                    ft = BINTYPE[kind] if cut % 3 else r.choice(['AUTO', 'NONE', BINTYPE[kind]])
                    kinds = [kind] + ([r.choice(['csr', 'gra', 'dig', 'coo'])] if kind in ('coo', 'csr') and cut % 4 == 0 else [])
                    ops = mkops + ['save A s', 'cut s %d' % cut]
                    for j, q in enumerate(kinds):
                        ops.append('load B%d %s %d 0 s %s' % (j, q, k, ft))
                    if cut % 10 == 0:
                        ops += goon(k)
                    T.append(S(*ops))
    # files of every other width
    for k, k2 in itertools.permutations(ks, 2):
        if (WK[k] == 'n') != (WK[k2] == 'n'):
            continue
        for kind in ('coo', 'csr', 'dig', 'ten'):
            T.append(S(*(made(r, kind, k, r.choice([1, 2, 3, 4])) + ['save A s', 'load B %s %d 0 s %s' % (kind, k2, BINTYPE[kind])])))
    c.go(b, T, threads=(1, 4))
    T = []
    # other widths, changed bytes, other headers, garbage behind
    for i in range(c.n(600, 6000)):
        kind = r.choice(['coo', 'csr', 'dig', 'ten'])
        k = r.choice(ks)
        # (an empty tensor of huge order is sound; its largest labels fill pages)
        ops = made(r, kind, k, *([r.randint(1, 3)] if kind == 'ten' else [])) + ['save A s']
        x = r.random()
        k2 = k
        if x < 0.25:
            k2 = r.choice(ks)
        elif x < 0.7:
            ops.append('byte s %d %d' % (r.choice([r.randint(0, 20), r.randint(0, 20), r.randint(10, 60)]),
                                         r.choice([0, 1, 2, 4, 8, 16, 32, 49, 50, 51, 127, r.randint(0, 127)])))
        elif x < 0.85:
            ops.append('add s %s' % hx(bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40])))))
        else:
            ops.append('cut s %d' % r.randint(1, 60))
            ops.append('add s %s' % hx(bytes([r.choice([0, 255, 1])]) * r.choice([1, 8, 60])))
        ops.append('load B %s %d 0 s %s' % (r.choice([kind, kind, kind, r.choice(KINDS)]), k2,
                                            r.choice(['AUTO', 'NONE', BINTYPE[kind], BINTYPE[kind], r.choice(TYPES)])))
        if 'dig' not in ops[-1] or True:
            T.append(S(*(ops + (goon(k) if r.random() < 0.2 else []))))
    # every content as every type into every kind
    contents = ['1 2\n0 1\n', '%%MatrixMarket matrix coordinate\n2 2 1\n1 2\n', '2 1\n2\n1\n', '', '\n', 'PIGO', 'PIGO-COO-v2xxxxxxxxxxxxxxxxxxxxxx',
                'PIGO-CSR-v1' + '\0' * 60, '%%MatrixMarket matrix array\n1 1\n1\n', '1 2 3 4\n', '# nothing\n', '5', '\0\0\0', '9 9',
                '%%MatrixMarket matrix coordinate\n', '%%MatrixMarket matrix coordinate\n2 2 9\n1 1\n', '3 2\n1 2\n', '-', 'x',
                '%%MatrixMarket matrix coordinate\n1 1 1\n2 1\n']
    for t in contents:
        for kind in KINDS:
            for ft in TYPES:
                k = r.choice([0, 0, 1])
                T.append(S(put('a', t), 'load A %s %d %d a %s' % (kind, k, r.choice([0, 0, 1, 2, 4, 7]) if kind == 'coo' else 0, ft)))
        T.append(S(put('a', t), 'load A mat 0 0 a NONE', *goon(0)))
    for fn in ('missing', 'nodir/x', 'd', 'd/', ''):
        if fn in ('d/', ''):
            continue
        for kind in KINDS:
            for ft in ('EDGE_LIST', 'AUTO', 'NONE', 'PIGO_COO_BIN', 'GRAPH'):
                T.append(S('mkdir d', 'load A %s 0 0 %s %s' % (kind, fn, ft), *(goon(0) if r.random() < 0.2 else [])))
        T.append(S('mkdir d', 'guess ' + fn, 'fopen F r ' + fn, 'fopen G R ' + fn, 'fopen H w z 4', 'fclose H'))
    # labels that have no row, entries that lack their weight
    for i in range(c.n(150, 1500)):
        k = r.choice([0, 1, 3, 4])
        n = r.choice([1, 2, 5])
        nums = gen.coo_nums(r, n, r.choice([1, 2, 6]), WK[k], rect=r.random() < 0.3)
        ops = [mk('A', 'coo', k, 0, nums)]
        x = r.random()
        if x < 0.6:
            ops.append('poke A %d %d %d' % (r.randrange(int(nums[3])), r.randrange(2), r.choice([n, n + 1, n + 5, 1000000])))
        else:
            ops += ['set A nr %d' % r.randint(1, n), 'set A n %d' % r.randint(1, n)]
        ops += r.sample(['c2s B A', 'c2d C A', 'c2m D A', 'c2g E A', 'copy F A'], 3)
        if r.random() < 0.4:
            ops += ['save A s', 'load G %s %d 0 s AUTO' % (r.choice(['csr', 'gra', 'dig']), k)]
        T.append(S(*(ops + (goon(k) if r.random() < 0.2 else []))))
    for i in range(c.n(200, 2000)):
        k = r.choice([1, 3])
        t = '\n'.join(' '.join(str(r.randrange(4)) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))) for _ in range(r.randint(1, 6)))
        T.append(S(put('a', t + r.choice(['', '\n'])), 'load A %s %d 0 a %s' % (r.choice(KINDS), k, r.choice(['EDGE_LIST', 'NONE'])),
                   *(goon(k) if r.random() < 0.2 else [])))
    # output that cannot be created; objects are as before
    for kind in ('coo', 'csr', 'dig', 'ten'):
        for m in (0, 1, 3):
            for k in (0, 1):
                A = made(r, kind, k, m)
                for fn in ('nodir/x', 'd'):
                    T.append(S(*(['mkdir d', put('o', 'old')] + A + ['save A ' + fn] + ([] if kind in ('csr', 'dig') else ['write A ' + fn])
                                 + ['save A o'] + ([] if kind in ('csr', 'dig') else ['write A o']))))
    for fn in ('nodir/x', 'd', 'o'):
        for md in 'wW':
            for n in (0, 1, 5):
                T.append(S('mkdir d', put('o', 'old'), 'fopen F %s %s %d' % (md, fn, n), 'fclose F'))
    T.append(S(put('o', 'old'), 'fopen F r o 2', 'fopen F r o 0', 'freads F 6f6c64', 'fclose F'))
    # several failures in a row leave everything usable
    for i in range(c.n(30, 300)):
        ops = ['mkdir d'] + made(r, 'coo', 0)
        for _ in range(r.randint(3, 10)):
            ops.append(r.choice(['load B coo 0 0 missing EDGE_LIST', 'save A nodir/x', 'write A d', 'load B csr 0 0 e AUTO', put('e', '1 2'),
                                 put('e', '%%MatrixMarket matrix coordinate\n1 1 5\n1 1'), 'load B coo 0 0 e MATRIX_MARKET',
                                 'load B gra 0 0 e GRAPH', 'save A e', 'load B coo 0 2 e GRAPH', 'load B ten 0 0 e PIGO_TENSOR_BIN']))
        T.append(S(*(ops + goon(0))))
    # combinations refused on conversion
    for fl in range(8):
        T.append(S(mk('A', 'csr', 0, 0, gen.csr_nums(r, 3, 3, 'n')), 's2c B A %d' % fl, 's2c C A 0'))
    T += crowded(r, c.n(500, 5000)) + brink(r, c.n(500, 5000))
    # random bytes
    alph = list(b'0123456789') + list(b'  \n\n\n\t#%.-+eE') + [0, 255, 128, 13]
    for i in range(c.n(700, 7000)):
        t = bytes(r.choice(alph) for _ in range(r.choice([1, 2, 5, 12, 30])))
        t = re.sub(rb'\d{5,}', lambda m: m.group()[:4], t)
        if r.random() < 0.3:
            t = b'%%MatrixMarket matrix coordinate' + r.choice([b'\n', b' real\n', b'']) + t
        T.append(S(put('a', t.decode('latin-1')), 'load A %s %d 0 a %s' % (r.choice(KINDS), r.choice([0, 0, 0, 1]),
                                                                          r.choice(['EDGE_LIST', 'MATRIX_MARKET', 'GRAPH', 'AUTO']))))
    c.go(b, T, threads=(1, 2, 5, 16))
    # numbers that go on and on, read by threads with small stacks: a
    # comment before them leaves them to a thread other than the first
    T = []
    for k in (1, 3, 5, 10, 14):
        for kind in ('coo', 'ten', 'csr'):
            for unit in ('e', 'e1', 'E-', '.', '-', '+', '1e', '%', '# ', '\t', '1 '):
                t = r.choice(['', '1', '1.', '-']) + unit * (r.choice([300, 4000]) // len(unit))
                t = r.choice(['1 2 %s\n', '1 1 1\n2 1 %s', '1 2 %s 3\n4 5 6\n']) % t
                if r.random() < 0.7:
                    t = '#' + 'x' * (len(t) + r.choice([-8, 2])) + '\n' + t
                T.append(S(put('a', t), 'load A %s %d 0 a EDGE_LIST' % (kind, k), mode='wide'))
    c.go(b, r.sample(T, c.n(90, 165)), threads=(2, 4), envs=[{'OMP_STACKSIZE': '96k'}])
    c.validate()


@check('C12')
def c12(c):
    b = c.build('m', [(0, 1), (1, 1), (3, 1)])
    build_all([b])
    r = c.r
    T = []
    names = ['a', 'a.mtx', 'a.graph', '.mtx', '.graph', 'mtx', 'graph', 'a.mtx.graph', 'a.graph.mtx', 'a.mtx.', 'a.mtxx', 'a.MTX', 'x.grap',
             'mtx.el', 'graph.txt', 'a.el', 'agraph', 'amtx', '.', 'PIGO-COO-v1', 'b.csr.pigo']
    names = [n for n in names if n != '.']
    conts = [b'', b'1 2\n', b'P', b'PI', b'PIG', b'PIGO', b'PIGOx', b'PIGO-', b'pigo-COO-v1']
    for h in HEADERS.values():
        for n in range(5, len(h) + 1):
            conts.append(h[:n])
            conts.append(h[:n] + b'\0' * 3)
        conts.append(h + b'x' * 70)
        for n in range(len(h)):
            conts.append(h[:n] + bytes([h[n] ^ 1]) + h[n + 1:] + b'\4\4')
        conts.append(b' ' + h)
        conts.append(b'\n' + h)
    for n in names:
        for t in conts:
            if n in ('a', 'a.mtx', 'a.graph') or r.random() < c.n(0.25, 1):
                T.append(S(put(n, t.decode('latin-1')), 'guess ' + n))
    for n in ('a', 'a.mtx'):
        for t in conts:
            if t and r.random() < c.n(0.5, 1):
                T.append(S(put(n, t.decode('latin-1')), 'fopen F r ' + n, 'fguess F', 'fseek F %d' % r.randint(0, 6), 'fguess F', 'fclose F'))
    # loading with detection, without a type, and with the type given
    def det(n, kind):
        return BINTYPE[kind] if kind in BINTYPE else 'MATRIX_MARKET' if n.endswith('.mtx') else 'GRAPH' if n.endswith('.graph') else 'EDGE_LIST'
    for i in range(c.n(500, 5000)):
        k = r.choice([0, 0, 1, 3])
        n = r.choice(names)
        x = r.random()
        if x < 0.5:
            t = r.choice([gen.el_text(r, WK[k], 3, top=4), gen.mm_text(r, WK[k], 0, 3, top=3, wrong=0), gen.graph_text(r, 3, wrong=0), '3 2\n1 2\n\n0\n'])
            ops, d = [put(n, t or ' ')], det(n, '')
        else:
            kind = r.choice(['coo', 'csr', 'dig', 'ten'])
            ops, d = made(r, kind, k) + ['save A ' + n], BINTYPE[kind]
        q = r.choice(['coo', 'csr', 'gra', 'dig', 'ten'])
        ops += ['load B %s %d 0 %s AUTO' % (q, k, n), 'load C %s %d 0 %s NONE' % (q, k, n), 'load D %s %d 0 %s %s' % (q, k, n, d), 'guess ' + n]
        if r.random() < 0.2:
            ops += ['load E mat %d 0 %s NONE' % (k, n)]
        if r.random() < 0.3:
            ops += ['fopen F r ' + n, 'loadf G %s %d 0 F AUTO' % (q, k), 'fclose F']
        T.append(S(*ops))
    c.go(b, T, threads=(1, 3))
    c.validate()


# ---------------------------------------------------------------------------
@check('C15')
def c15(c):
    ks = [0, 1, 3, 14, 15, 16]
    b = c.build('m', [(k, 255 if k == 3 else 3) for k in ks] + [(k, 1) for k in NARROW])
    build_all([b])
    r = c.r
    T = model_histories(c, 'MCHist', c.n(5, 6))
    if c.quick:
        T = [S(*t) for t in T]
    else:
        T = [S(*t) for t in T]
    def cfg(s, k):                      # the same history in another configuration
        return S(*[re.sub(r'^(mk \w+ \w+) 0 ', r'\1 %d ' % k, o) for o in s.ops])
    c.go(b, T + [cfg(s, k) for k in (15, 16) for s in T if r.random() < c.n(0.3, 1)], threads=(3,))
    # assignments between objects whose sizes agree in part
    T = []
    for i in range(c.n(120, 1200)):
        k = r.choice(ks)
        w = WK[k]
        big = r.choice([2, 3, 6, 12, 60])
        ops = []
        if r.random() < 0.6:
            sh = [(big, 2), (2, big), (1, 2 * big), (2 * big, 1), (big, 1), (1, big)]
            for h in 'ABCD':
                o, m = r.choice(sh)
                ops.append(mk(h, 'ten', k, 0, ten_nums(r, o, m, w)))
        else:
            for h in 'ABCD':
                ops.append(mk(h, 'coo', k, 0, gen.coo_nums(r, r.choice([2, 5, 300]), r.choice([2, big]), w)))
        for _ in range(r.randint(2, 5)):
            d, s = r.sample('ABCD', 2)
            ops.append('%s %s %s' % (r.choice(['asg', 'asg', 'asg', 'copy']), d, s))
            if r.random() < 0.3:
                ops.append(r.choice(['write %s o', 'save %s o']) % d)
        T.append(S(*ops))
    # operations that are refused leave everything as it was
    for i in range(c.n(60, 600)):
        k = r.choice(ks)
        n = r.choice([1, 2, 3])
        nums = gen.coo_nums(r, n, r.choice([1, 2, 5]), wk(r, k))
        ops = [mk('A', 'coo', k, 0, nums), 'copy B A', 'poke A %d %d %d' % (r.randrange(int(nums[3])), r.randrange(2), n + r.choice([0, 1, 5]))]
        for _ in range(r.randint(1, 4)):
            ops.append(r.choice(['c2s C A', 'c2d D A', 'c2m E A', 'c2g F A', 'c2d D B', 'load C coo %d 0 nowhere AUTO' % k, 'c2s C B']))
        T.append(S(*(ops + ['tr A', r.choice(['c2d G A', 'asg B A', 'write A o'])])))
    c.go(b, T, threads=(1, 3))
    T = []
    for i in range(c.n(700, 8000)):
        k = r.choice(ks)
        w = WK[k]
        ops, H = [], {}
        def fresh():
            return r.choice('ABCDE')
        for _ in range(r.randint(4, 14)):
            x = r.random()
            coos = [h for h in H if H[h][0] == 'coo']
            tens = [h for h in H if H[h][0] == 'ten']
            csrs = [h for h in H if H[h][0] == 'csr']
            if x < 0.2 or not H:
                h = fresh()
                if r.random() < 0.7:
                    m = r.choice([0, 1, 2, 5])
                    ops.append(mk(h, 'coo', k, 0, gen.coo_nums(r, 5, m, w)))
                    H[h] = ('coo', m, 2)
                else:
                    o, m = r.choice([1, 2, 3]), r.choice([0, 1, 4])
                    ops.append(mk(h, 'ten', k, 0, ten_nums(r, o, m, w)))
                    H[h] = ('ten', m, o)
            elif x < 0.35 and (coos or tens):
                s, h = r.choice(coos + tens), fresh()
                ops.append('copy %s %s' % (h, s))
                H[h] = H[s]
            elif x < 0.48 and (coos or tens):
                s = r.choice(coos + tens)
                t = [h for h in H if H[h][0] == H[s][0]]
                d = r.choice(t)
                ops.append('asg %s %s' % (d, s))
                H[d] = H[s]
            elif x < 0.6 and coos:
                ops.append('tr ' + r.choice(coos))
            elif x < 0.75 and (coos or tens):
                h = r.choice(coos + tens)
                if H[h][1]:
                    f = r.randrange(H[h][2] + (1 if w != 'n' else 0))
                    ops.append('poke %s %d %d %d' % (h, r.randrange(H[h][1]), f, r.randint(0, 4)))
            elif x < 0.8 and (coos or tens):
                h = r.choice(coos + tens)
                ops.append('free ' + h)
                if r.random() < 0.3:
                    ops.append('free ' + h)
                H[h] = (H[h][0], 0, H[h][2])
            elif x < 0.84 and coos:
                ops.append('set %s %s %d' % (r.choice(coos), r.choice(['n', 'nr', 'nc']), r.randint(5, 9)))
            elif x < 0.92 and coos:
                s, h = r.choice(coos), fresh()
                if h != s:
                    ops.append('c2s %s %s' % (h, s))
                    H[h] = ('csr', 0, 0)
            elif x < 0.94 and csrs:
                s, h = r.choice(csrs), fresh()
                if h != s:
                    f = r.choice([0, 1])
                    ops.append('s2c %s %s 0' % (h, s))
                    H.pop(h, None)
            elif x < 0.96 and csrs:
                s, h = r.choice(csrs), fresh()
                if h != s:
                    ops.append('dd %s %s' % (h, s))
                    H[h] = ('csr', 0, 0)
            elif x < 0.98:
                h = r.choice(list(H))
                ops.append(r.choice(['save %s s', 'save %s t'] + (['write %s t'] if H[h][0] != 'csr' else [])) % h)
            else:
                h = r.choice(list(H))
                ops.append('drop ' + h)
                del H[h]
        T.append(S(*ops))
    # copies large enough for many threads
    for k in (0, 1, 14):
        for m in (50, 333):
            T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, 90, m, wk(r, k))), 'copy B A', 'tr B', 'asg A B', 'free B', 'copy C A'))
            T.append(S(mk('A', 'ten', k, 0, ten_nums(r, 3, m, wk(r, k))), 'copy B A', 'poke B 3 0 7', 'asg A B', 'free B', 'copy C A'))
    for i in range(c.n(30, 300)):
        k = r.choice(NARROW)
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, ntop(k), nlen(r, k), wk(r, k))), 'copy B A', 'tr B', 'asg A B', 'free B'))
        T.append(S(mk('A', 'ten', k, 0, ten_nums(r, r.choice([1, 3, 100]), nlen(r, k), wk(r, k), ntop(k))), 'copy B A', 'poke B 0 0 7', 'asg A B', 'free B'))
    for k in (0, 1):
        m = c.n(20000, 70000)
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, 90, m, wk(r, k))), 'copy B A', 'tr B', 'free A'))
        T.append(S(mk('A', 'ten', k, 0, ten_nums(r, 3, m, wk(r, k))), 'copy B A', 'poke B 3 0 7', 'free A'))
    for k in ks:
        T.append(S('mk A coo %d 0' % k, 'copy B A', 'asg A B', 'tr A', 'free A', 'free A', 'copy C A', 'c2s D A'))
        T.append(S('mk A ten %d 0' % k, 'copy B A', 'asg A B', 'free A', 'copy C A'))
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, 4, 3, wk(r, k))), 'mk B coo %d 0' % k, 'asg A B', 'asg B B', 'asg A A'))
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, 4, 3, wk(r, k))), 'asg A A', 'tr A', 'tr A', 'copy B A'))
    c.go(b, T, threads=(1, 2, 3, 8, 40))
    c.validate()


def model_histories(c, module, depth, cfg=None):
    """Histories enumerated by TLC from a model: lists of script lines."""
    out = tlc(c.work, module, workers=NCPU, env={'DEPTH': str(depth)}, timeout=600)
    m = re.findall(r'^(\d+) states generated, (\d+) distinct states', out, re.M)
    if 'Model checking completed. No error' not in out or not m:
        raise ToolError('TLC: ' + out[-3000:])
    c.model['states'] += int(m[-1][1])
    c.model['transitions'] += int(m[-1][0])
    H = []
    for x in re.findall(r'^"H;(.*);"$', out, re.M):
        H.append(x.split(';'))
    if not H:
        raise ToolError('no histories: ' + out[-2000:])
    c.notes.append('%s: %d histories of depth %d enumerated by TLC' % (module, len(H), depth))
    H.sort()
    return H


# ---------------------------------------------------------------------------
def file_history(r, names=('f', 'g')):
    ops = []
    P = {}                              # handle -> (mode, size)
    for n in names:
        if r.random() < 0.6:
            ops.append(put(n, bytes(r.randrange(256) for _ in range(r.choice([1, 2, 8, 20]))).decode('latin-1')))
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < 0.2 or not P:
            h = r.choice('FGH')
            if h in P:
                ops.append('fclose ' + h)
                del P[h]
            if r.random() < 0.5:
                ops.append('fopen %s %s %s' % (h, r.choice('rR'), r.choice(names)))
                P[h] = ('r', 20)
            else:
                n = r.choice([1, 2, 3, 8, 17, 40])
                # one writer per file, and no reader of a file that is written
                used = [p[2] for p in P.values() if len(p) > 2]
                fn = 'w' + h
                if fn in used:
                    continue
                ops.append('fopen %s %s %s %d' % (h, r.choice('wW'), fn, n))
                P[h] = ('w', n, fn)
            continue
        h = r.choice(list(P))
        w = P[h][0] == 'w'
        if x < 0.4 and w:
            ops.append('fwrite %s %s' % (h, bytes(r.randrange(256) for _ in range(r.choice([1, 2, 4, 8]))).hex()))
        elif x < 0.5 and w:
            ops.append('%s %s %s' % (r.choice(['fwrites', 'fpw']), h, bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 9]))).hex()))
        elif x < 0.65:
            ops.append('fread %s %d' % (h, r.choice([1, 2, 4, 8])))
        elif x < 0.72:
            ops.append('fpr %s %d' % (h, r.choice([0, 1, 3, 8, 15])))
        elif x < 0.77:
            ops.append('freads %s %s' % (h, bytes(r.choice([0, 65, 255]) for _ in range(r.choice([0, 1, 2]))).hex()))
        elif x < 0.87:
            ops.append('fseek %s %d' % (h, r.choice([0, 0, 1, 2, 7, 8, 9, 16, 17, 20])))
        elif x < 0.9 and not w:
            ops.append('freader ' + h)
        elif x < 0.92 and w:
            if not any(o.startswith('mk S ') for o in ops):
                ops.append('mk S csr 0 0' if r.random() < 0.6 else 'mk S csr 0 0 1 1 1 1 2 0 1 0')
            ops.append('savef S ' + h)
        elif x < 0.95:
            t = r.choice('FGH')
            if t not in P:
                ops.append('fmove %s %s' % (h, t))
            else:
                ops.append('fmasg %s %s' % (h, t))
            P[t] = P[h]
            if t != h:
                del P[h]
        else:
            ops.append('fclose ' + h)
            del P[h]
    return ops


@check('C16')
def c16(c):
    b = c.build('m', [(0, 1)])
    build_all([b])
    r = c.r
    T = [S(*t) for t in model_histories(c, 'MCFile', c.n(5, 6))]
    c.go(b, T, threads=(2,))
    T = []
    for i in range(c.n(1500, 15000)):
        T.append(S(*file_history(r)))
    # strings that match, nearly match or go beyond the end
    for n in range(0, 6):
        for cut in range(0, 6):
            T.append(S(put('f', 'abcab'), 'fopen F r f', 'fseek F %d' % n, 'freads F %s' % hx('abcab'[:cut]), 'freads F %s' % hx('abcabx'[n:n + cut]),
                       'fread F 1', 'fclose F'))
    # what an earlier file held does not matter
    for n in (1, 5, 40):
        T.append(S(put('f', 'x' * 20), 'fopen F w f %d' % n, 'fwrite F 61', 'fclose F', 'load A coo 0 0 f EDGE_LIST'))
    # blocks among many threads
    for n in c.n([1, 7, 63, 64, 65, 1000, 4096, 5001], list(range(1, 70)) + [1000, 4095, 4096, 4097, 5001, 20000]):
        d = bytes(r.randrange(256) for _ in range(n)).hex()
        T.append(S('fopen F w f %d' % (n + 3), 'fpw F ' + d, 'fwrites F 616263', 'fclose F', 'fopen G r f', 'fread G 1', 'fpr G %d' % n, 'fpr G %d' % n, 'fseek G 0',
                   'fpr G %d' % (n + 3), 'fpr G 1', 'fclose G'))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16, 40, 65, 300))
    n = c.n(1100000, 2300000)
    d = bytes(r.randrange(256) for _ in range(n)).hex()
    c.go(b, [S('fopen F w f %d' % (n + 3), 'fpw F ' + d, 'fwrites F 616263', 'fclose F', 'fopen G r f', 'fread G 1', 'fpr G %d' % n)], threads=(3, 8))
    c.validate()


@check('C17')
def c17(c):
    b = c.build('m', [(0, 1, ['-DLITE'])])
    mod = Models(c, [('ParLines', {'KIND': 'find', 'LEN': c.n(6, 9), 'TEAM': c.n(4, 6)})])
    build_all([b])
    r = c.r
    mod.rows()
    T = []
    toks = ['0', '1', '23', ' ', '\n', '#', '-', '.', 'e', '\r', 'x']
    batch = []
    def prim(t, e=None):
        return 'prim %s %d' % (hx(t) or '-', len(t) if e is None else e)
    for t in tokens(toks, 0, 3):
        batch.append(prim(t))
        if t and r.random() < c.n(0.25, 1):
            batch.append(prim(t, r.randrange(len(t))))
    for t in tokens(toks, 4, 4):
        if r.random() < c.n(0.08, 0.6):
            batch.append(prim(t))
    alph = '00112359' * 3 + '  \n\n#%-+..eE\r\tx'
    for i in range(c.n(800, 8000)):
        t = ''.join(r.choice(alph) for _ in range(r.randint(4, 24)))
        t = re.sub(r'[eE][+-]?\d{2,}', 'e1', t)
        t = re.sub(r'\d{10,}', lambda m: m.group(0)[:9], t)        # within 32 bits
        batch.append(prim(t, r.choice([len(t), len(t), r.randint(0, len(t))])))
    for i in range(c.n(300, 3000)):
        t = gen.el_text(r, r.choice('nfi'), 2, noise=0.5)[:60]
        batch.append(prim(t, r.choice([len(t), r.randint(0, len(t))])))
    for i in range(0, len(batch), 12):
        T.append(S(*batch[i:i + 12], mode='wide'))
    c.go(b, T, threads=(1,))
    T, batch = [], []
    for t in tokens(['\n', 'a', '\n\n', 'bc'], 0, c.n(4, 6)):
        batch.append('offs %s %d 0 10 %d' % (hx(t) or '-', len(t), r.randrange(3)))
        if t:
            e = r.randint(0, len(t))
            batch.append('offs %s %d %d 10 %d' % (hx(t), e, r.randint(0, e), r.randrange(3)))
    for i in range(c.n(200, 2000)):
        t = ''.join(r.choice('ab\n\0') for _ in range(r.choice([1, 5, 17, 40, 130])))
        e = r.choice([len(t), r.randint(0, len(t))])
        batch.append('offs %s %d %d %d %d' % (hx(t), e, r.choice([0, r.randint(0, e)]), r.choice([10, 97, 0]), r.randrange(3)))
    for i in range(0, len(batch), 12):
        T.append(S(*batch[i:i + 12]))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16, 40, 65, 130, 300))
    T = []
    for n, d in c.n([(140000, 0.5), (1100000, 0.02)], [(70000, 0.5), (140000, 0.02), (140000, 0.9), (1100000, 0.02), (2300000, 0.001)]):
        T.append(S('offs %s %d 0 10 %d' % (hx(''.join('\n' if r.random() < d else 'a' for _ in range(n))), n, r.randrange(3))))
    c.go(b, T, threads=(1, 3, 8))
    c.validate()


@check('C18')
def c18(c):
    b = c.build('m', [(0, 1), (1, 1), (3, 1), (15, 1), (4, 1)] + [(k, 1) for k in NARROW])
    build_all([b])
    r = c.r
    T = []
    for i in range(c.n(40, 400)):
        k = r.choice(NARROW)
        n = r.choice([2, min(ntop(k), 250), min(ntop(k), 4000)])
        ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, n, nlen(r, k), wk(r, k), skew=r.choice([0, 0.8])))]
        T.append(S(*(ops + r.choice([['c2d B A', 'save B s', 'load C dig %d 0 s AUTO' % k], ['c2m B A'], ['c2g B A', 'find B 1 1', 'find B 0 %d' % (n - 1), 'sort B']]))))
    for i in range(c.n(700, 7000)):
        k = r.choice([0, 0, 1, 3, 15, 4])
        n = r.choice([1, 2, 3, 6])
        ops = [mk('A', 'coo', k, 0, gen.coo_nums(r, n, r.choice([0, 1, 3, 8, 15]), wk(r, k), rect=r.random() < 0.4, skew=r.choice([0, 0.8]),
                                                  spare=r.choice([0, 0, 2])))]
        x = r.random()
        if x < 0.5:
            ops += ['c2d B A', 'save B s', 'load C dig %d 0 s %s' % (k, r.choice(['AUTO', 'NONE', 'PIGO_DIGRAPH_BIN']))]
        elif x < 0.75:
            ops += ['c2m B A'] + (['c2d C A'] if r.random() < 0.3 else [])
        else:
            ops += ['c2g B A'] + ['find B %d %d' % (r.randrange(n), r.randrange(n)) for _ in range(2)] + ['sort B']
        if r.random() < 0.2:
            ops += ['tr A', 'c2d D A']
        T.append(S(*ops))
    # labels beyond the dimensions
    for i in range(c.n(80, 800)):
        k = r.choice([0, 0, 1, 3, 4])
        n = r.choice([1, 2, 3])
        nums = gen.coo_nums(r, n, r.choice([1, 2, 5]), wk(r, k))
        ops = [mk('A', 'coo', k, 0, nums), 'poke A %d %d %d' % (r.randrange(int(nums[3])), r.randrange(2), n + r.choice([0, 1, 5]))]
        ops += [r.choice(['c2d B A', 'c2m C A', 'c2g D A']) for _ in range(2)]
        T.append(S(*(ops + r.choice([['c2d B A'], ['tr A', 'c2d B A', 'c2m C A']]))))
    for i in range(c.n(400, 4000)):
        k = r.choice([0, 1, 3, 15, 4])
        kind = r.choice(['dig', 'dig', 'mat', 'gra'])
        x = r.random()
        if x < 0.6:
            fn, t = 'a', gen.el_text(r, WK[k], r.choice([1, 2, 5, 12]), top=r.choice([1, 4, 9]))
        elif x < 0.8:
            fn, t = 'a.mtx', gen.mm_text(r, WK[k], 0, r.choice([1, 2, 5, 12]), top=r.choice([2, 6]), wrong=0)
        else:
            fn, t = 'a.graph', gen.graph_text(r, r.choice([1, 2, 5]), wrong=0)
        ops = [put(fn, t or '\n'), 'load A %s %d 0 %s %s' % (kind, k, fn, 'NONE' if kind == 'mat' else r.choice(['NONE', 'AUTO']))]
        if kind == 'dig':
            ops += ['save A s', 'load B dig %d 0 s AUTO' % k, 'save B t']
        if kind == 'mat':
            ops += ['load B coo %d 0 %s NONE' % (k, fn), 'c2m C B']
        T.append(S(*ops))
    c.go(b, T, threads=(1, 2, 3, 5, 8, 16))
    # more threads than rows, and many rows and entries
    T = []
    for i in range(c.n(30, 300)):
        k = r.choice([0, 1, 3, 15, 4])
        n = r.choice([1, 5, 64, 66, 140])
        T.append(S(mk('A', 'coo', k, 0, gen.coo_nums(r, n, r.choice([0, 1, 30, 100]), wk(r, k), rect=r.random() < 0.4, skew=r.choice([0, 0.8]))),
                   *r.choice([['c2d B A', 'save B s', 'load C dig %d 0 s AUTO' % k], ['c2m B A'], ['c2g B A', 'sort B']])))
    c.go(b, T, threads=(65, 130, 300))
    T = [S(mk('A', 'coo', 0, 0, gen.coo_nums(r, n, m, 'n', skew=sk)), o + ' B A') for n, m, sk in c.n([(300, 20000, 0), (20000, 9000, 0.5)],
         [(300, 20000, 0), (20000, 9000, 0.5), (66000, 66000, 0), (3, 70000, 0)]) for o in ('c2d', 'c2m')]
    c.go(b, T, threads=(5, 8))
    c.validate()


@check('C19')
def c19(c):
    ks = [5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 0, 1, 3]
    b = c.build('m', [(k, 1) for k in ks])
    build_all([b])
    r = c.r
    T = []
    # every weight spelling of a few pieces
    for sg, ip, fp, ex in itertools.product(['', '-', '+'], ['', '0', '7', '007', '123456'], ['', '.', '.5', '.000001', '.123456789', '.0'],
                                            ['', 'e0', 'e5', 'E-3', 'e+02', 'E-007', 'e12', 'e-12', 'E20']):
        if not ip and fp in ('', '.'):
            continue
        k = r.choice([5, 13])
        s = sg + ip + fp + ex
        if r.random() < c.n(0.35, 1):
            T.append(S(put('a', '1 2 %s\n3 4 %s' % (s, s)), 'load A coo %d 0 a EDGE_LIST' % k, 'load B ten %d 0 a EDGE_LIST' % k,
                       'write A o', 'load C coo %d 0 o EDGE_LIST' % k, mode='wide'))
    # long numbers
    for k in (5, 13, 14, 1):
        for n in (8, 9, 10, 17, 18, 19, 20, 21, 22, 24, 30, 45, 60):
            for pre in ('0.', '.', '-3.', '12.', '.00', '7.%s' % ('0' * n)):
                s = pre + ''.join(r.choice('0123456789') for _ in range(n)) + r.choice(['', '', 'e2', 'E-3'])
                T.append(S(put('a', '1 2 %s\n3 4 5 %s' % (s, s)), 'load A coo %d 0 a EDGE_LIST' % k, 'load B ten %d 0 a EDGE_LIST' % k, mode='wide'))
        for n in range(8, 22):
            s = r.choice('123456789') + ''.join(r.choice('0123456789') for _ in range(n)) + r.choice(['', '.5', 'e-9', 'e+2'])
            T.append(S(put('a', '1 2 %s\n3 4 %s' % (s, s)), 'load A coo %d 0 a EDGE_LIST' % k, mode='wide'))
    # large exponents
    for k in (5, 13):
        for x in (20, 31, 38, 39, 60, 64, 70, 99, 100, 128, 200, 255, 256, 260, 290):
            for sg in ('', '+', '-'):
                s = r.choice(['1', '-1.5', '2.75', '.5', '123.25']) + r.choice('eE') + sg + r.choice(['', '0', '00']) + str(x)
                T.append(S(put('a', '1 2 %s\n3 4 %s' % (s, s)), 'load A coo %d 0 a EDGE_LIST' % k, 'load B ten %d 0 a EDGE_LIST' % k, mode='wide'))
    def lab(k, top=None):
        s = str(wide_label(r, k, top))
        return '0' * r.choice([0, 0, 0, 1, 3, 25]) + s
    def wt(k):
        w = WK[k]
        if w == 'n':
            return []
        s = wide_weight(r, k)[0]
        if w == 'i':
            sg, d = ('-', s[1:]) if s[0] == '-' else (r.choice(['', '', '+']), s)
            return [sg + '0' * r.choice([0, 0, 1, 4]) + d]
        if w == 'u':
            return ['0' * r.choice([0, 0, 1, 4]) + s]
        if r.random() < 0.2 and s[0] != '-':
            s = '+' + s
        return [s]
    for i in range(c.n(900, 9000)):
        k = r.choice(ks)
        x = r.random()
        m = r.choice([1, 2, 3])
        if x < 0.4:
            t = ''.join(' '.join([lab(k, lmax(k) - 1), lab(k, lmax(k) - 1)] + wt(k)) + '\n' for _ in range(m))
            T.append(S(put('a', t), 'load A coo %d 0 a EDGE_LIST' % k, 'write A o', 'load B coo %d 0 o EDGE_LIST' % k, mode='wide'))
        elif x < 0.8:
            o = r.choice([1, 2, 3])
            t = ''.join(' '.join([lab(k) for _ in range(o)] + wt(k)) + '\n' for _ in range(m))
            T.append(S(put('a', t), 'load A ten %d 0 a EDGE_LIST' % k, 'write A o', 'load B ten %d 0 o EDGE_LIST' % k, mode='wide'))
        else:
            top = lmax(k) - 1
            xs = [(lab(k, top), lab(k, top)) for _ in range(m)]
            t = '%%%%MatrixMarket matrix coordinate\n%d %d %d\n' % (max(int(a) for a, _ in xs) if True else 0, max(int(b) for _, b in xs), m)
            t += ''.join(' '.join([a, b_] + wt(k)) + '\n' for a, b_ in xs)
            if all(int(a) > 0 and int(b_) > 0 for a, b_ in xs):
                T.append(S(put('a', t), 'load A coo %d 0 a MATRIX_MARKET' % k, mode='wide'))
    c.go(b, T, threads=(1, 2, 5))
    # every number of the small types
    T = []
    for k in (8, 10):
        vals = range(0, lmax(k))
        ws = range(-128, 128) if k == 10 else range(256)
        L = ['%d %d %d' % (i % lmax(k), (i * 7) % lmax(k), w) for i, w in enumerate(ws)]
        for a in range(0, len(L), 16):
            T.append(S(put('a', '\n'.join(L[a:a + 16]) + '\n'), 'load A coo %d 0 a EDGE_LIST' % k, 'write A o', 'load B coo %d 0 o EDGE_LIST' % k, mode='wide'))
    c.go(b, T, threads=(1, 3))
    c.validate()


@check('C20')
def c20(c):
    b = c.build('m', [(0, 3), (1, 1), (15, 1)])
    build_all([b])
    r = c.r
    T = []
    for i in range(c.n(500, 5000)):
        k = r.choice([0, 0, 1, 15])
        ops = ['watch 1', 'mkdir d', put('a', gen.el_text(r, WK[k], 4, top=5) or '1 2'), put('a.mtx', gen.mm_text(r, WK[k], 0, 3, top=4, wrong=0.4)),
               put('a.graph', gen.graph_text(r, 3, wrong=0.3)), put('e', ''), put('o', 'x' * r.choice([1, 50, 500])), put('bad', 'PIGO-COO-v9')]
        r.shuffle(ops[2:])
        ops += made(r, 'coo', k, r.choice([0, 2, 5]))
        for _ in range(r.randint(3, 9)):
            fl = r.choice([0, 0, 1]) if k == 0 else 0
            ops.append(r.choice([
                'load B %s %d 0 a NONE' % (r.choice(KINDS + ['mat']), k), 'load B coo %d %d a.mtx AUTO' % (k, fl), 'load B csr %d 0 a.graph AUTO' % k,
                'load B gra %d 0 a.graph GRAPH' % k, 'load B %s %d 0 missing AUTO' % (r.choice(KINDS), k), 'load B %s %d 0 e EDGE_LIST' % (r.choice(KINDS), k),
                'load B %s %d 0 d AUTO' % (r.choice(KINDS), k), 'load B %s %d 0 bad AUTO' % (r.choice(KINDS), k), 'load B csr %d 0 a PIGO_CSR_BIN' % k,
                'save A o', 'write A o', 'save A nodir/x', 'write A nodir/y', 'save A d', 'write A d', 'save A s', 'load C coo %d 0 s AUTO' % k,
                'load C csr %d 0 s PIGO_CSR_BIN' % k, 'load C ten %d 0 s AUTO' % k, 'c2d D A', 'save D s', 'load C dig %d 0 s AUTO' % k, 'guess a', 'guess bad',
                'guess missing', 'fopen F r a', 'fclose F', 'fopen F w z 9', 'fmove F G', 'fclose G', 'fopen G r d', 'fopen G w nodir/x 4', 'load T ten %d 0 a NONE' % k,
                'save T o', 'write T o', 'cut s 20', 'fmasg F G']))
        # file objects are used only as far as they exist (others are skipped)
        T.append(S(*fix_files(ops)))
    # files of more than a page, left at any place when they are closed
    big = ('1 2\n' * 4000)
    for i in range(c.n(120, 1200)):
        n = r.choice([1, 100, 4096, 4100, 9000, 16000])
        ops = ['watch 1', put('a', big[:n]), 'fopen F r a']
        for _ in range(r.randint(0, 3)):
            ops.append(r.choice(['fseek F %d' % r.randrange(n), 'fread F 8', 'fpr F %d' % (n // 3), 'freads F 312032', 'loadf A coo 0 0 F EDGE_LIST', 'freader F']))
        ops += r.choice([['fclose F'], ['fmove F G', 'fclose G'], ['fopen G r a', 'fmasg F G', 'fclose G'], ['fopen G w o 5000', 'fmasg F G', 'fclose G']])
        ops += r.choice([[], ['load B coo 0 0 a EDGE_LIST', 'save B s', 'load C coo 0 0 s AUTO'], ['fopen H w o %d' % n, 'fwrite H 61', 'fclose H'],
                         ['load B coo 0 0 a EDGE_LIST', 'write B o', 'load C ten 0 0 o NONE']])
        T.append(S(*ops))
    c.go(b, T, threads=(1, 2, 5, 8))
    c.validate()


def fix_files(ops):
    """drops uses of file objects in a wrong state"""
    P, out = set(), []
    wr = False                          # z is open for writing
    for o in ops:
        a = o.split()
        if a[0] == 'fopen':
            if a[1] in P or (a[3] == 'z' and wr):
                continue
            wr = wr or a[3] == 'z'
            P.add(a[1])
            if a[3] in ('d', 'nodir/x'):
                P.discard(a[1])
        elif a[0] == 'fclose':
            if a[1] not in P:
                continue
            P.discard(a[1])
        elif a[0] == 'fmove':
            if a[1] not in P or a[2] in P:
                continue
            P.discard(a[1]); P.add(a[2])
        elif a[0] == 'fmasg':
            if a[1] not in P or a[2] not in P:
                continue
            P.discard(a[1])
        out.append(o)
    return out
