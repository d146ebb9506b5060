"""C17: HEALPix functions called in the library, judged against Healpix."""
from vp import *
import math


def hexf(x):
    return float(x).hex()


def obs(_id, k, ns, **kw):
    o = {"id": _id, "k": k, "ns": ns, 'i': '0', 'a': [], 'f': [], 'p': [], 'wide': ns > 8192, 'nest': ns & (ns - 1) == 0, 'useang': True, 'crash': ''}
    o.update(kw)
    return o


def nside(rng):
    r = rng.random()
    if r < .45: return 2 ** rng.randrange(0, 14)
    if r < .6: return rng.choice([1, 2, 4, 256, 8192])
    if r < .8: return 2 ** rng.randrange(14, 30)
    if r < .95: return rng.randrange(1, 8193)
    return rng.choice([3, 5, 6, 7, 12, 100, 1000, 8191, rng.randrange(8193, 2 ** 29)])


def cases(ctx):
    rng = ctx.rng
    C = {}
    def add(kind, *v):
        C[f'{kind}{len(C)}'] = (kind, v)
    n = ctx.budget(1500, 60000)
    za = math.acos(2 / 3)
    def ang(ns):
        r = rng.random()
        if r < .1: th = rng.choice([0.0, math.pi, 1e-9, math.pi - 1e-9, 1e-5, 1e-300, math.pi / 2])
        elif r < .2: th = rng.choice([za, math.pi - za]) + rng.choice([0, 0, 1e-16, 2e-16, -2e-16, 1e-9, -1e-9])
        elif r < .35: th = math.acos(max(-1, min(1, rng.choice([1, -1]) * (1 - rng.randrange(0, ns + 1) ** 2 / 3 / ns ** 2))))
        elif r < .5: th = math.acos(max(-1, min(1, rng.randrange(-ns, ns + 1) * 2 / 3 / ns)))
        else: th = math.acos(rng.uniform(-1, 1))
        th = min(max(th, 0.0), math.pi)
        r = rng.random()
        if r < .15: ph = rng.randrange(-8, 9) * math.pi / 2
        elif r < .3: ph = rng.randrange(-8, 9) * math.pi / 4 * rng.choice([1, 1 + 2e-16, 1 - 1e-16])
        elif r < .45: ph = rng.randrange(0, 8 * ns + 1) * math.pi / (4 * ns)
        elif r < .5: ph = rng.choice([-1e-20, -1e-17, 1e-300, 2 * math.pi - 1e-15, math.nextafter(2 * math.pi, 0), -2 * math.pi, 4 * math.pi, 2 * math.pi])
        elif r < .6: ph = rng.uniform(-60, 60)
        else: ph = rng.uniform(0, 2 * math.pi)
        return th, ph
    for _ in range(n):
        ns = nside(rng)
        add('dir', ns, *ang(ns))
        ns = nside(rng)
        r = rng.random()
        sc = rng.choice([1, 1, 1e-3, 1e5, 3])
        if r < .2: v = [rng.choice([0.0, 1.0, -1.0, -0.0, .5, 2.0]) for _ in range(3)]
        elif r < .3: v = [rng.choice([0.0, 1e-9, -1e-12, 1e-160]), rng.choice([0.0, 1e-9, -1e-160]), rng.choice([1.0, -1.0])]
        else:
            t, p = ang(ns); v = [sc * math.sin(t) * math.cos(p), sc * math.sin(t) * math.sin(p), sc * math.cos(t)]
        if sum(x * x for x in v) == 0: v[0] = 1.0
        add('vec', ns, *v)
    for ns in range(1, 6) if not ctx.thorough else list(range(1, 17)) + [32]:
        for i in range(12 * ns * ns):
            add('pix', ns, i)
    for _ in range(n):
        ns = nside(rng)
        np = 12 * ns * ns; cap = 2 * ns * (ns - 1)
        q = rng.randrange(1, ns + 1)
        i = rng.choice([rng.randrange(np), rng.randrange(np), 0, np - 1, cap, cap - 1, np - cap, np - cap - 1, 2 * q * (q - 1), 2 * q * (q + 1) - 1, np - 2 * q * (q + 1), rng.randrange(12) * ns * ns, cap + rng.randrange(2 * ns + 1) * 4 * ns, cap + rng.randrange(1, 2 * ns + 2) * 4 * ns - 1, rng.randrange(max(cap, 1)), np - 1 - rng.randrange(max(cap, 1))])
        add('pix', ns, min(max(i, 0), np - 1))
        ns = rng.choice([nside(rng), rng.randrange(1, 8193)])
        add('count', ns, rng.choice([12 * ns * ns, 12 * ns * ns, 12 * ns * ns + rng.choice([1, -1, 12, 24]), rng.randrange(1, 12 * 8192 ** 2), ns * ns, 12 * ns]))
    return C


def run_c17(ctx):
    ctx.design('HealpixMC', env={'BIG': '1' if ctx.thorough else '0'})
    C = cases(ctx)

    def observe(ids):
        cmds = []
        for i in ids:
            k, v = C[i]
            ns = v[0]
            w, nest = int(ns > 8192), int(ns & (ns - 1) == 0)
            if k in ('dir', 'vec'): cmds.append(f'{k} {ns} ' + ' '.join(map(hexf, v[1:])) + f' {w} {nest}')
            elif k == 'pix': cmds.append(f'pix {ns} {v[1]} {w} {nest}')
            else: cmds.append(f'n2n {ns} {v[1]} {int(ns > 8192 or v[1] > 12 * 8192 ** 2)}')
        out, back = [], []
        for i, a in zip(ids, ctx.calls(cmds)):
            k, v = C[i]
            cr = {'crash': a[1]} if a[0] == 'crash' else {}
            ns = v[0]
            if cr: out.append(obs(i, k, ns, a=[hexf(x) for x in v[1:]] if k in ('dir', 'vec') else [], **cr))
            elif k == 'dir': out.append(obs(i, k, ns, a=[hexf(x) for x in v[1:]], f=a[1:6], p=a[6:14]))
            elif k == 'vec': out.append(obs(i, k, ns, a=[hexf(x) for x in v[1:]], f=a[1:3], p=['-9', a[3], '-9', a[4], '-9', a[5], '-9', a[6]], useang=False))
            elif k == 'count': out.append(obs(i, k, ns, i=str(v[1]), p=a[1:5], wide=ns > 8192 or v[1] > 12 * 8192 ** 2))
            else:
                o = obs(i, k, ns, i=str(v[1]), f=a[1:21], p=a[21:25])
                out.append(o)
                back.append((o, a))
        # every centre sent back
        q = []
        for o, a in back:
            ns, w, nest = o['ns'], int(o['wide']), int(o['nest'])
            for j in range(4):
                if (j in (1, 3) and w) or (j >= 2 and not nest): continue
                q.append((o, j, [f'dir {ns} {a[1 + 5 * j]} {a[2 + 5 * j]} {w} {nest}', 'vec %d %s %s %s %d %d' % (ns, *a[3 + 5 * j:6 + 5 * j], w, nest)]))
        for (o, j, _), s in zip(q, ctx.calls([x[2] for x in q])):
            d, v = s
            if 'crash' in (d[0], v[0]):
                out.append(obs(o['id'] + f'_{j}', 'back', o['ns'], crash='crash')); continue
            p = [d[6], d[7], v[3]] if j == 0 else [d[10], d[11], v[5]] if j == 1 else [d[8], d[9], v[4]] if j == 2 else [d[12], d[13], v[6]]
            out.append(obs(o['id'] + f'_{j}', 'back', o['ns'], i=o['i'], p=p))
        return out
    ctx.conform('HealpixTrace', observe(list(C)), 'HEALPix functions called in the library', rerun=lambda i: observe([i.split('_')[0]]))
