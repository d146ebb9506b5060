"""C07 (element sets decoded), C08 (catalogue numbers)."""
from vp import *
import tle as T

FN = ['epoch', 'ndot', 'nddot6', 'bstar', 'incl', 'node', 'ecc', 'argp', 'mo', 'no']


def parse_obs(i, l1, l2, ans):
    o = {'id': i, 'k': 'parse', 'l1': bl(l1), 'l2': bl(l2), 'crash': '', 'rc': -1}
    if ans[0] == 'crash':
        o['crash'] = ans[1]
        return o
    o['rc'] = int(ans[0])
    for n, v in zip(FN, ans[1:11]):
        o[n] = v
    # state-vector numbers are stored from the inclination on (structure order)
    o['sv'] = [ans[5], ans[6], ans[7], ans[8], ans[9], ans[10]]
    o['number'], o['set'], o['rev'], o['class'], o['type'] = map(int, ans[11:16])
    o['desig'] = bl(unhx(ans[16]))
    return o


def line_obs(i, l, ans):
    return {'id': i, 'k': 'line', 'l': bl(l), 'crash': ans[1] if ans[0] == 'crash' else '', 'rc': 0 if ans[0] == 'crash' else int(ans[0])}


def pairs(ctx, n):
    """(line1, line2) pairs: well formed, each column at its extremes, damaged in every way"""
    rng = ctx.rng
    P = []
    for r in T.REGIMES:
        for _ in range(max(1, n // 100)):
            P.append(T.rand_tle(rng, r))
    while len(P) < n // 4:
        P.append(T.rand_tle(rng, num=rng.choice([rng.randrange(0, 99999), rng.randrange(100000, 339999), ''.join(rng.choice(T.B34) for _ in range(5))])))
    # extremes of single columns
    for yy in list(range(0, 100, 1 if n > 1500 else 4)) + [56, 57]:
        P.append(T.tle(yy=yy, day=rng.choice([1.0, 59.5, 60.5, 365.99999999, 366.0])))
    ex = []
    for s in '+- ':
        for e in '0123456789':
            for es in '+- ':
                ex.append((f'{s}{rng.randrange(0, 99999):05d}{es}{e}'))
    rng.shuffle(ex)
    l1, l2 = T.tle()
    for f in ex:
        P.append((T.recheck(l1[:44] + f + l1[52:]), l2))
        P.append((T.recheck(l1[:53] + f + l1[61:]), l2))
    for nd in ('-.00000000', ' .99999999', '-.99999999', '+.00012345', '0.00012345', ' .00000001'):
        P.append((T.recheck(l1[:33] + nd + l1[43:]), l2))
    for v in (0.0, 0.0001, 9.9999, 10.0, 99.9999, 100.0, 359.9999, 999.9999):
        P.append(T.tle(incl=v)); P.append(T.tle(node=v)); P.append(T.tle(argp=v)); P.append(T.tle(mo=v))
    for v in (0, 1e-7, .9999999, .1, .05):
        P.append(T.tle(ecc=v))
    for v in (0.0, 0.00000001, 1.0, 9.99999999, 10.0, 99.99999999):
        P.append(T.tle(n=v, rev=0)); P.append(T.tle(n=v, rev=99999))
    for v in (0, 1, 99, 100, 9999):
        P.append(T.tle(setn=v, rev=v))
    for d in ('98067A', '98067ABC', '', '00001A', '57001A', '56999ZZZ', '58 1A', '5A', '98067   '):
        P.append(T.tle(desig=d))
    for c in 'UCS 1-':
        P.append(T.tle(cls=c))
    for t in '0123456789 HUS':
        P.append(T.tle(typ=t))
    # state vectors
    Z = 36 ** 8 - 1
    for _ in range(max(20, n // 40)):
        P.append(T.high(pos=tuple(rng.choice([0, 1, -1, Z, -Z, rng.randrange(-Z, Z), rng.randrange(-10 ** 9, 10 ** 9)]) for _ in range(3)),
                        vel=tuple(rng.choice([0, Z, -Z, rng.randrange(-Z, Z), rng.randrange(-10 ** 7, 10 ** 7)]) for _ in range(3))))
    good = list(P)
    # damaged pairs
    ALPH = [0, 9, 10, 13, 31, 32, 33, 42, 43, 45, 46, 48, 49, 50, 57, 58, 65, 72, 90, 91, 97, 122, 123, 126, 127, 128, 160, 255]
    D = []
    while len(D) < n - len(P):
        a, b = rng.choice(good)
        a, b = bytearray(a.encode()), bytearray(b.encode())
        k = rng.randrange(15)
        L = rng.choice([a, b])
        if k <= 3:       # one byte changed, checksum repaired or not
            p = rng.choice([0, 1, 2, 62, 67, 68, rng.randrange(69)])
            L[p] = rng.choice(ALPH)
            if rng.random() < .5 and p < 68:
                L[68] = ord(T.ck(L[:68].decode('latin-1')))
        elif k == 4:     # checksum column
            L[68] = rng.choice([48 + rng.randrange(10), 32, 45, 46, 65, ord('a') + rng.randrange(26), 13, 123, 200])
        elif k == 5:     # cut
            del L[rng.choice([0, 1, 2, 60, 67, 68, rng.randrange(69)]):]
        elif k == 6:     # longer
            L += bytes([rng.choice([32, 10, 13, 9, 0, 33, 65, 48, 160, 255, 128])]) + rng.choice([b'', b'x', b'\n'])
        elif k == 7:     # both checksums
            for M in (a, b):
                if rng.random() < .7:
                    M[68] = 48 + (M[68] - 48 + rng.randrange(1, 10)) % 10
        elif k == 8:     # two bytes swapped, sum unchanged
            p, q = rng.randrange(2, 68), rng.randrange(2, 68)
            L[p], L[q] = L[q], L[p]
        elif k == 9:
            a, b = b, a
        elif k == 10:
            b = bytearray(a)
        elif k == 11:    # compensating digits
            p, q = rng.randrange(2, 68), rng.randrange(2, 68)
            if 48 <= L[p] < 57 and 48 < L[q] <= 57 and p != q:
                L[p] += 1; L[q] -= 1
        elif k == 12:    # digit -> '-' with compensation
            p = rng.randrange(2, 68)
            if L[p] == 49: L[p] = 45
        elif k == 14:    # state vector: neighbours of the 36 digits, signs; checksum right
            a, b = (bytearray(x.encode()) for x in T.high(pos=(rng.randrange(10 ** 9),) * 3, vel=(-5, 7, rng.randrange(10 ** 6))))
            L = rng.choice([a, b])
            p = 33 + 10 * rng.randrange(3) + rng.choice([0, 0, 1, 8, rng.randrange(1, 9)])
            L[p] = rng.choice(b'/:;<=>?@[`az\\^_{. +-09AZ')
            L[68] = ord(T.ck(L[:68].decode('latin-1')))
        else:            # line end
            L += rng.choice([b'\r\n', b'\n', b'\r', b'  '])
        x, y = bytes(a), bytes(b)
        if 0 in x: x = x[:x.index(0)]
        if 0 in y: y = y[:y.index(0)]
        D.append((x, y))
    return P + D


def run_c07(ctx):
    n = ctx.budget(1600, 24000)
    P = pairs(ctx, n)
    variants = ['asan']
    cases = {}
    cmds = []
    for i, (a, b) in enumerate(P):
        cases[f'p{i}'] = ('parse', a, b)
    lines = [l for p in P for l in p]
    ctx.rng.shuffle(lines)
    for i, l in enumerate(lines[:n]):
        cases[f'l{i}'] = ('ck', l)
    ids = list(cases)

    def observe(ids, variant):
        cmds = [('parse %s %s' % (hx(cases[i][1]), hx(cases[i][2]))) if cases[i][0] == 'parse' else 'ck ' + hx(cases[i][1]) for i in ids]
        ans = ctx.calls(cmds, variant)
        return [parse_obs(i, *cases[i][1:], a) if cases[i][0] == 'parse' else line_obs(i, cases[i][1], a) for i, a in zip(ids, ans)]
    for v in ['plain'] + (['asan'] if ctx.thorough else []):
        ctx.conform('TleTrace', observe(ids, v), f'decoder calls ({v} build)', rerun=lambda i: observe([i], v))


def run_c08(ctx):
    rng = ctx.rng
    ctx.design('NumberMC', env={'BIG': '1' if ctx.thorough else '0'})
    ths = set()
    L = 'ABCDEFGHJKLMNPQRSTUVWXYZ'
    A = T.B34
    # every letter and digit in every position of every format, range edges, invalid and blank texts
    for fmt in ('ddddd', 'Ldddd', 'xxxxL', 'xxxLd', 'xxLdd', 'xLddd'):
        for pos in range(5):
            for c in {'d': A[:10], 'L': L, 'x': A}[fmt[pos]]:
                t = ''.join(c if k == pos else rng.choice({'d': A[:10], 'L': L, 'x': A}[f]) for k, f in enumerate(fmt))
                ths.add(t)
        lo = ''.join({'d': '0', 'L': 'A', 'x': '0'}[f] for f in fmt); hi = ''.join({'d': '9', 'L': 'Z', 'x': 'Z'}[f] for f in fmt)
        ths |= {lo, hi}
        for _ in range(ctx.budget(60, 3000)):
            ths.add(''.join(rng.choice({'d': A[:10], 'L': L, 'x': A}[f]) for f in fmt))
    for t in list(ths)[::7]:
        for bad in 'IOioaz+-. *':
            p = rng.randrange(5)
            ths.add(t[:p] + bad + t[p + 1:])
    for k in range(6):
        ths.add(' ' * k + '12345'[k:]); ths.add('12345'[:k] + ' ' * (5 - k)); ths.add(' ' * k + 'AZ9B7'[k:])
    ths |= {'IIIII', 'OOOOO', '     ', 'A 123', 'AA 12', '1 2 3'}
    cases = {}
    for i, t in enumerate(sorted(ths)):
        a, b = T.tle(num=t, cls='9' if i % 7 == 0 else 'U')
        cases[f'n{i}'] = (a, b)

    def observe(ids):
        return [parse_obs(i, *cases[i], a) for i, a in zip(ids, ctx.calls(['parse %s %s' % (hx(cases[i][0]), hx(cases[i][1])) for i in ids]))]
    ctx.conform('TleTrace', observe(list(cases)), 'catalogue-number texts decoded by the library', rerun=lambda i: observe([i]))
