"""Generators of inputs and histories (all choices from a seeded generator)."""
import random


def hx(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return b.hex()


SEPS = [' '] * 8 + ['  ', '\t', ' \t ', '   ', ',', ';', ' ,']
EOLS = ['\n'] * 10 + ['\r\n', ' \n', '\t\n', ' \r\n', '  \n']


RARE = 0.008                # of something unusually long or odd


def comment(r):
    n, al = r.choice([0, 0, 1, 2, 5, 12, 30]), 'abc 123 .#%-\t'
    if r.random() < RARE:
        n = r.choice([70, 130, 300, 1030, 4100])
    if r.random() < 0.1:
        al += '\x00\x7f\x80\xb1\xff\r\v\f\\"'
    return r.choice('#%') + ''.join(r.choice(al) for _ in range(n))


def sep(r):
    if r.random() < RARE:
        return r.choice([' ' * 33, ' ' * 260, '\t' * 70, ' \t' * 9, '\r', ' \r '])
    return r.choice(SEPS)


def eol(r):
    if r.random() < RARE:
        return r.choice([' ' * 140 + '\n', '\n' * 70, '\r\n' * 20, '\r\r\n', ' \n' * 40])
    return r.choice(EOLS)


def label(r, top):
    x = r.random()
    if x < 0.75:
        s = str(r.randint(0, top))
    elif x < 0.85:
        s = str(r.randint(0, min(9, top)))
    elif x < 0.95:
        s = '0' * r.randint(1, 4) + str(r.randint(0, top))
    elif x < 0.95 + RARE:
        s = '0' * r.choice([12, 20, 40, 130]) + str(r.randint(0, top))
    else:
        s = str(top)
    return s


def frac64(r):
    """digits of a fraction that is a multiple of 1/64"""
    return ('%.6f' % (r.randint(0, 63) / 64.0))[2:]


def weight(r, w, big=9999):
    if w == 'u':
        return ('0' * r.randint(0, 2) if r.random() < 0.2 else '') + str(r.randint(0, min(big, 200)))
    if w == 'i':
        return r.choice(['', '', '-', '-', '+']) + ('0' if r.random() < 0.1 else '') + str(r.randint(0, min(big, 120)))
    # floating point, a multiple of 1/64
    sg = r.choice(['', '', '', '-', '+'])
    x = r.random()
    if x < 0.25:
        return sg + str(r.randint(0, big))
    if x < 0.5:
        f = frac64(r)
        while r.random() < 0.5 and f.endswith('0'):
            f = f[:-1]
        return sg + str(r.randint(0, 99)) + '.' + f
    if x < 0.6:
        return sg + '.' + frac64(r)
    if x < 0.68:
        return sg + str(r.randint(0, 99)) + '.'
    e = r.choice(['e', 'E'])
    if x < 0.8:
        k = r.randint(0, 2)
        return sg + str(r.randint(0, 99)) + e + r.choice(['', '+', '-0' if k == 0 else '+']) + str(k)
    if x < 0.9:
        return sg + str(r.choice([5, 25, 125, 75, 375])) + e + '-' + r.choice(['', '0']) + str(r.randint(1, 3)) \
            if False else sg + '%d.%d' % (r.randint(0, 9), r.choice([5, 25, 75, 125, 375])) + e + r.choice(['0', '+0', '1', '+1', '2'])
    return sg + r.choice(['50', '150', '25', '75', '1250', '500']) + e + '-' + r.choice(['1', '01', '2'])


JUNK = ['x', 'abc', '\x80\xff', '\xb2 \xb3', '\v', '\x00', '/', ':', '-', '-7', '3', '4 5', '.5', '1e5', 'e', '7 x 8', '#', '% 3', '0.25']


def data_line(r, nl, w, top):
    """a line with nl labels and perhaps a weight"""
    s = r.choice([''] * 6 + [' ', '\t', '  '])
    for i in range(nl):
        s += (sep(r) if i else '') + label(r, top)
    if w != 'n':
        s += r.choice([' ', ' ', ' ', '\t', '  ']) + weight(r, w)
    if r.random() < 0.2:
        s += r.choice([' ', '\t', '  ']) + r.choice(JUNK)
    if r.random() < 0.12:
        s += r.choice(['', ' ']) + comment(r)
    return s


def other_line(r):
    x = r.random()
    if x < 0.45:
        return ''
    if x < 0.6:
        return r.choice([' ', '\t', '   ', '\r'])
    if x < 0.9:
        return r.choice(['', '', ' ', '\t ']) + comment(r)
    return r.choice(['abc', ' x y ', '-', '.', '\xe9\xff', '/:', '\x00'])


def el_text(r, w, lines, top=12, noise=0.3, nl=2):
    out = ''
    for i in range(lines):
        while r.random() < noise:
            out += other_line(r) + eol(r)
        out += data_line(r, nl, w, top) + eol(r)
    while r.random() < noise:
        out += other_line(r) + eol(r)
    if r.random() < 0.45:
        out = out.rstrip('\n')
        if r.random() < 0.3:
            out = out.rstrip()
    return out


# ---------------------------------------------------------------------------
# Matrix Market
BANNERS = ['%%MatrixMarket matrix coordinate real general', '%%MatrixMarket matrix coordinate pattern general',
           '%%MatrixMarket matrix coordinate integer symmetric', '%%MatrixMarket matrix coordinate',
           '%%MatrixMarket matrix coordinate pattern symmetric 1 2']
BAD_BANNERS = ['%%MatrixMarket matrix array real general', '%%MatrixMarket vector coordinate', '%MatrixMarket matrix coordinate',
               '%%MatrixMarket matrix coordinat', '1 1 1', '%%MatrixMarket  matrix coordinate real', '']


def mm_text(r, w, flags, entries, top=8, noise=0.2, wrong=0.35, square=None):
    sym, ut, sl = flags & 1, flags & 2, flags & 4
    E = []
    for _ in range(entries):
        x, y = r.randint(1, top), r.randint(1, top)
        if r.random() < 0.2:
            y = x
        E.append((x, y))
    mx = max([e[0] for e in E], default=1)
    my = max([e[1] for e in E], default=1)
    nr, nc = mx + r.choice([0, 0, 1, 3]), my + r.choice([0, 0, 1, 2])
    kept = [e for e in E if not (sl and e[0] == e[1]) and not (ut and not sym and e[0] > e[1])]
    full = len(kept) + (sum(e[0] != e[1] for e in kept) if sym and not ut else 0)
    nnz = r.choice([len(E)] * 4 + [len(kept), full])
    if r.random() < wrong:
        nnz = max(0, r.choice([len(E) - 1, len(E) + 1, len(kept) - 1, len(kept) + 1, full + 1, full - 1,
                               full // 2, 2 * full, 2 * len(E), 0, len(E) + 7]))
    if r.random() < wrong / 2:
        if r.random() < 0.5:
            nr = max(0, mx - r.choice([1, 2]))
        else:
            nc = max(0, my - r.choice([1, 2]))
    out = (r.choice(BAD_BANNERS) if r.random() < wrong / 6 else r.choice(BANNERS)) + r.choice(['\n', '\n', '\r\n', ' \n'])
    while r.random() < noise * 2:
        out += r.choice([comment(r), comment(r), '', ' ']) + '\n'
    out += '%d%s%d%s%d' % (nr, sep(r), nc, sep(r), nnz) + r.choice(['', '', ' ', ' 5', ' # c']) + eol(r)
    for x, y in E:
        while r.random() < noise:
            out += other_line(r) + eol(r)
        out += r.choice(['', '', ' ']) + '%d%s%d' % (x, sep(r), y)
        if w != 'n':
            out += r.choice([' ', '\t']) + weight(r, w)
        if r.random() < 0.15:
            out += r.choice([' ', '\t']) + r.choice(JUNK)
        out += eol(r)
    if r.random() < 0.4:
        out = out.rstrip('\n')
    return out


# ---------------------------------------------------------------------------
# Adjacency
def graph_text(r, n, deg=3, noise=0.15, wrong=0.2, one=None, und=None):
    one = r.random() < 0.6 if one is None else one
    base = 1 if one else 0
    lens = [r.choice([0, 0, 1, 1, 2, deg, r.randint(0, deg)]) for _ in range(n)]
    if r.random() < 0.2:
        lens = [0] * n
    top = max(base, n - 1 + base) if r.random() < 0.85 else r.choice([2 * n + 3, 40, 120])
    rows = [[r.randint(base, top) for _ in range(d)] for d in lens]
    k = sum(lens)
    m = k // 2 if (k % 2 == 0 and r.random() < 0.6) else k
    nn = n
    if r.random() < wrong:
        m = max(0, m + r.choice([-1, 1, 2]))
    if r.random() < wrong:
        nn = max(0, n + r.choice([1, 1, 2, -1, -1]))
    out = ''
    while r.random() < noise:
        out += r.choice(['', ' ', comment(r)]) + '\n'
    out += r.choice(['', '', ' ']) + '%d%s%d' % (nn, sep(r), m) + r.choice(['', '', ' ', ' 0', ' 000', ' 10 1', ' % c']) \
        + r.choice(EOLS)
    for row in rows:
        while r.random() < noise:
            out += comment(r) + '\n'
        out += r.choice(['', '', '', ' '])
        sp = r.choice([' ', ' ', '\t', '  ']) if r.random() > RARE else sep(r)
        out += sp.join(('0' * r.choice([1, 3, 20]) if v and r.random() < 0.02 else '') + str(v) for v in row)
        if r.random() < 0.1:
            out += ' ' + comment(r)
        out += r.choice(EOLS)
    while r.random() < noise:
        out += r.choice([comment(r) + '\n', '\n', ' \n'])
    if r.random() < 0.45 and out.endswith('\n'):
        out = out[:-1]
    return out


# ---------------------------------------------------------------------------
# Tensors
def ten_weight(r, w):
    return weight(r, w)


def ten_text(r, w, order, entries, top=9, noise=0.25):
    out = ''
    blanks = [' '] * 6 + ['  ', '\t', ' \t']
    for _ in range(entries):
        while r.random() < noise:
            out += r.choice(['', ' ', '\t', comment(r), ' ' + comment(r)]) + r.choice(['\n', '\n', '\r\n'])
        out += r.choice([''] * 5 + [' ', '\t'])
        out += ''.join((r.choice(blanks) if d else '') + label(r, top) for d in range(order))
        if w != 'n':
            out += r.choice(blanks) + weight(r, w)
        out += r.choice(['', '', '', ' ', '\t', '  ', ' \t'])
        if r.random() < 0.15:
            out += r.choice(['', ' ']) + comment(r)
        out += r.choice(['\n', '\n', '\n', '\r\n'])
    while r.random() < noise:
        out += r.choice(['', ' ', comment(r)]) + '\n'
    if r.random() < 0.45 and out.endswith('\n'):
        out = out[:-1]
    return out


# ---------------------------------------------------------------------------
# Objects made by hand (numbers as in mode "int": floats in 1/64)
def wval(r, w):
    if w == 'n':
        return []
    if w == 'u':
        return [str(r.randint(0, 5))]
    if w == 'i':
        return [str(r.randint(-4, 4))]
    if w == 'F':                                    # any that a float holds
        return [str(r.choice([-1, 1]) * r.choice([1, 63, 65, 640 * r.randint(1, 199), r.randint(0, 127999), r.randint(0, 9) << 13]))]
    if w[0] in 'iu' and len(w) > 1:                 # any of the type (that TLC holds)
        b = int(w[1:])
        hi = min((1 << (b - 1)) - 1 if w[0] == 'i' else (1 << b) - 1, 2090000000)
        lo = -hi if w[0] == 'i' else 0
        return [str(r.choice([lo, hi, hi - 1, lo + 1, 0, 1, (hi >> 1) + 1, hi >> 1, r.randint(lo, hi), r.randint(lo, hi)]))]
    return [str(r.choice([r.randint(-200, 200), 64 * r.randint(-3, 3), 0, 1, 32]))]


def coo_nums(r, n, m, w, skew=None, rect=False, spare=0):
    """arguments of mk for a coo with labels below n"""
    nr = nc = n
    if rect:
        nr, nc = r.randint(1, n), r.randint(1, n)
        if r.random() < 0.5:
            nr = n
        else:
            nc = n
    E = []
    pool = [r.randint(0, max(nr - 1, 0)) for _ in range(2)]
    for _ in range(m):
        x = r.choice(pool) if skew and r.random() < skew else r.randint(0, max(nr - 1, 0))
        y = r.randint(0, max(nc - 1, 0))
        if E and r.random() < 0.15:
            x, y = r.choice(E)[:2]
        E.append((x, y))
    a = [str(max(nr, nc) + spare), str(nr), str(nc), str(m)]
    for x, y in E:
        a += [str(x), str(y)] + wval(r, w)
    return a


def csr_nums(r, rows, cols, w, avg=2, long_row=0, dup=0.3, order='any', one=False):
    """arguments of mk for a csr (n = nr = rows)"""
    off, el = [0], []
    nr = rows
    n = rows - 1 if one and rows > 1 else rows
    for v in range(rows):
        d = r.choice([0, 0, 1, avg, r.randint(0, 2 * avg)])
        if one and v == 0:
            d = 0
        if long_row and r.random() < 2.0 / rows:
            d = long_row
        row = []
        for _ in range(d):
            y = r.randint(0, cols - 1)
            if row and r.random() < dup:
                y = r.choice(row)
            row.append(y)
        if order == 'sorted':
            row.sort()
        if order == 'down':
            row.sort(reverse=True)
        for y in row:
            el.append([str(y)] + wval(r, w))
        off.append(off[-1] + d)
    a = [str(n), str(nr), str(cols), str(len(el)), str(len(off))] + [str(x) for x in off]
    for x in el:
        a += x
    return a
