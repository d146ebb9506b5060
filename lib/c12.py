"""C12, C13, C22, C23: propagation sessions recorded from the library and judged against the
specified models (PropTrace)."""
from vp import *
import tle as T
import math


def hexf(x):
    return float(x).hex()


DRIVER_MODEL = {'HIGH': 'SDP4'}
NEAR = ['leo', 'leo2', 'sso', 'low', 'decay', 'ecc', 'near225', 'highdrag', 'perigee']
DEEP = ['deep225', 'meo', 'gps', 'molniya', 'gto', 'geo', 'geoinc', 'geoecc', 'super', 'halfday_e', 'perigeedeep']


def times(rng, deep, n):
    out = []
    for _ in range(n):
        r = rng.random()
        if r < .1: t = 0.0
        elif r < .3: t = rng.uniform(-1440, 1440)
        elif r < .4: t = rng.choice([720, -720, 1440, 719.9999, 720.0001, -720.5, 7200, 30, -30, 60])
        elif r < .55 and out: t = rng.choice(out)
        elif r < .7 and out: t = out[-1] + rng.uniform(-40, 40)
        elif r < .75 and out: t = -out[-1]
        elif r < .8 and out: t = out[-1] + rng.choice([29.99, 30.0, 30.01, -29.9, -30.1, 1, 1e-3])
        else: t = rng.uniform(-20000, 20000) if deep else rng.uniform(-10000, 10000)
        out.append(float(t))
    return out


def wild_high(rng):
    r = rng.random()
    d = 10 ** rng.uniform(7, 9.3) if r < .8 else 10 ** rng.uniform(6.9, 10)
    u = [rng.gauss(0, 1) for _ in range(3)]
    m = math.sqrt(sum(x * x for x in u))
    pos = [int(x / m * d) for x in u]
    v = 10 ** rng.uniform(1, 3.9)
    w = [rng.gauss(0, 1) for _ in range(3)]
    m = math.sqrt(sum(x * x for x in w))
    vel = [int(x / m * v * 1e4) for x in w]
    return T.high(num=rng.randrange(1, 99999), yy=rng.choice([15, 19, 99, 60, 20, 0, 56, 57]), day=rng.choice([1.0, 91.99922241, rng.uniform(1, 366)]), pos=pos, vel=vel)


def alike(rng, objs):
    """give the last set an epoch at, or minutes from, that of another: what is kept for one fits the other"""
    m, a, b = objs[-1]
    e = float(rng.choice(objs[:-1])[1][20:32]) + rng.choice([0, 0, rng.uniform(-.01, .01), rng.uniform(-.02, .02), rng.uniform(-.3, .3)])
    y = objs[0][1][18:20]
    a = a[:18] + y + f'{min(max(e, 1), 366.9):012.8f}' + a[32:]
    objs[-1] = (m, T.recheck(a), b)


def make(ctx, models, n, len_calls, regimes=None, mix=False, one=False):
    """sessions: id -> (objs, calls)"""
    rng = ctx.rng
    C = {}
    for k in range(n):
        objs, calls = [], []
        for _ in range(rng.choice([1, 1, 2, 3]) if not mix else rng.choice([2, 3, 4])):
            m = rng.choice(models)
            if m == 'HIGH':
                l = wild_high(rng)
                objs.append((m, *l))
                if mix and len(objs) > 1 and rng.random() < .6: alike(rng, objs)
                continue
            if regimes: rg = rng.choice(regimes)
            elif m in ('SGP', 'SGP4', 'SGP8'): rg = rng.choice(NEAR + NEAR + NEAR + T.REGIMES)
            else: rg = rng.choice(DEEP + DEEP + DEEP + T.REGIMES)
            kw = {}
            if rng.random() < .25:
                kw['typ'] = rng.choice('012345')
            if rng.random() < .1:
                kw['n'] = 6.4 + rng.choice([0, 1e-8, -1e-8, 1e-6, -1e-6, .01, -.01, .05])
            if rng.random() < .12:
                kw['incl'] = rng.choice([0.0, 90.0, 63.4349, 180.0, .1, 179.5, 11.4592, 11.46])
            if rng.random() < .05:
                kw['ecc'] = rng.choice([0.0, 1e-7, 9.9e-5, 1.01e-4, .95, .9999999])
            if m in ('SGP', 'SGP8', 'SDP8') and rng.random() < .2:
                kw['ndot'] = rng.choice([-.9, -.5, .9, .3, .05, -.05, .002, -.001])
            if m in ('SGP', 'SGP8') and rng.random() < .1:
                kw['nddot'] = rng.choice([-1e-2, 1e-3, -1e-4, .01])
            objs.append((m, *T.rand_tle(rng, rg, **kw)))
            if mix and len(objs) > 1 and rng.random() < .4: alike(rng, objs)
        deep = any(o[0] in ('SDP4', 'SDP8') for o in objs)
        nc = rng.randrange(1, len_calls + 1) if len_calls > 1 else 1
        per = [times(rng, deep, nc + 1) for _ in objs]
        if one or mix and rng.random() < .5: per = [per[0]] * len(objs)
        for j in range(nc * (1 if not mix else len(objs))):
            i = rng.randrange(len(objs))
            t = per[i][rng.randrange(len(per[i]))] if objs[i][0] != 'HIGH' else rng.choice([0.0, 1e-6, 1440, -1440, 1439.99, 2880, rng.uniform(-1440, 1440), rng.uniform(-14400, 14400), rng.uniform(-43200, 43200) if ctx.thorough or rng.random() < .2 else 100.])
            if mix and objs[i][0] == 'HIGH' and rng.random() < .6:   # arrive near the epoch of a set
                e = [float(o[1][20:32]) for o in objs]
                t = (rng.choice(e) - e[i]) * 1440 + rng.choice([0, 1, -1, rng.uniform(-15, 15)])
                if abs(t) > 43200: t = rng.uniform(-15, 15)
            calls.append((i, float(t), rng.choice([1, 1, 0])))
        C[f'{"one" if one else "mix" if mix else "s"}{k}_{models[0]}'] = (objs, calls)
    return C


def picks(rng):
    """elements for the choice of model alone, at the edges of what is valid"""
    out = []
    for _ in range(3):
        ecc = rng.choice([0.0, -0.0, 1.0, 1 - 2.0 ** -53, 1 + 2.0 ** -52, -5e-324, 5e-324, -1e-9, 1e-9, 1.0000001, .9999999, -1.0, 2.0, float('inf'), rng.random(), rng.random(), rng.random(), rng.uniform(-.1, 1.1)])
        no = rng.choice([0.0, -0.0, 5e-324, -5e-324, -.01, 1e-6, math.tau * 6.4 / 1440, math.tau * 6.4 / 1440 * (1 + rng.uniform(-1e-3, 1e-3)), math.tau * rng.uniform(.9, 17) / 1440, math.tau * rng.uniform(.9, 17) / 1440, math.tau * rng.uniform(5, 8) / 1440, 1.0])
        out.append((rng.choice([0, 48, 48, 48, 49, 50, 51, 52, 53, 54, 32, 104, 72]), ecc, no, rng.choice([0.0, math.pi, math.pi / 2, rng.uniform(0, math.pi), rng.uniform(0, math.pi)])))
    return out


def record(ctx, C, ids, variant='plain'):
    cmds, took = [], {}
    many = lambda i: [f'pick {t} {hexf(e)} {hexf(n)} {hexf(x)}' for t, e, n, x in C[i][2]] if len(C[i]) > 2 else []
    share = lambda i: i.startswith('one')
    for i in ids:
        objs, calls = C[i][:2]
        ld = [f'load {k} {DRIVER_MODEL.get(m, m)} {hx(a)} {hx(b)}' for k, (m, a, b) in enumerate(objs)]
        seq, last = [], None
        for o, t, v in calls:
            if share(i):   # all sets in one parameter array, one in place of the other
                ini = ['over 0' + ld[o][len(f'load {o}'):]] if o != last else []
                seq.append(ini + [f'at 0 {hexf(t)} {v}']); last = o
            else:
                seq.append([f'at {o} {hexf(t)} {v}'])
        cmds.append(ld + [y for s in seq for y in s])
        took[i] = [len(s) for s in seq]
        for o, t, v in calls:
            cmds.append([ld[o], f'at {o} {hexf(t)} {v}'])
        cmds += [[x] for x in many(i)]
    ans = ctx.calls(cmds, variant)
    out, p = [], 0
    for i in ids:
        objs, calls = C[i][:2]
        a = ans[p]; p += 1
        fr = ans[p:p + len(calls)]; p += len(calls)
        pk = ans[p:p + len(many(i))]; p += len(pk)
        ob = {'id': i, 'crash': '', 'objs': [], 'calls': [], 'picks': []}
        for x in a + [y for s in fr + pk for y in s]:
            if x[0] == 'crash':
                ob['crash'] = x[1]
        for (m, l1, l2), x in zip(objs, a):
            ob['objs'].append({'model': m, 'l1': bl(l1), 'l2': bl(l2), 'choice': 9 if x[0] == 'crash' else int(x[1])})
        if not ob['crash']:
            ob['picks'] = [{'type': t, 'eo': hexf(e), 'no': hexf(n), 'incl': hexf(x), 'choice': int(y[0][0])} for (t, e, n, x), y in zip(C[i][2] if pk else [], pk)]
            q = len(objs)
            for (o, t, v), n, s in zip(calls, took[i], fr):
                q += n
                x, y = a[q - 1], s[1]
                ob['calls'].append({'obj': o + 1, 'init': n - 1, 't': hexf(t), 'vel': v, 'rc': int(x[1]), 'f': x[2:8],
                                    'fresh': {'rc': int(y[1]), 'vel': v, 'f': y[2:8]}})
        out.append(ob)
    return out


def sessions(ctx, C, what):
    return ctx.conform('PropTrace', record(ctx, C, list(C)), what, rerun=lambda i: record(ctx, C, [i]))


def run_c12(ctx):
    sessions(ctx, make(ctx, ['SGP4', 'SDP4'], ctx.budget(3000, 160000), 4), 'SGP4 and SDP4 sessions')


def run_c23(ctx):
    sessions(ctx, make(ctx, ['SGP', 'SGP8', 'SDP8'], ctx.budget(2600, 120000), 4), 'SGP, SGP8 and SDP8 sessions')


def run_c22(ctx):
    sessions(ctx, make(ctx, ['HIGH'], ctx.budget(700, 12000), 3), 'state-vector sessions')


def cached(ctx):
    """every transition of the cache model, replayed with element sets of each resonance kind"""
    text = ctx.design('DeepCacheMC', env={'BIG': '1' if ctx.thorough else '0'})
    paths = sorted({tuple(int(x) for x in m.group(1).split(',')) for m in re.finditer(r'<<"VPCALLS", <<([-0-9,\s]+)>>\s*>>', text)})
    rng = ctx.rng
    C = {}
    for k, p in enumerate(paths):
        m = ['SDP4', 'SDP4', 'SDP8'][k % 3] if not ctx.thorough else rng.choice(['SDP4', 'SDP8'])
        rg = rng.choice(['geo', 'geoinc', 'molniya', 'halfday_e', 'geoecc', 'meo'])
        C[f'cache{k}'] = ([(m, *T.rand_tle(rng, rg))], [(0, float(t), 1) for t in p])
    return C


def run_c13(ctx):
    C = make(ctx, ['SGP4', 'SDP4', 'SDP8', 'SGP', 'SGP8', 'SDP4', 'SDP4', 'HIGH'], ctx.budget(250, 12000), 4, mix=True)
    C.update(make(ctx, ['SDP4', 'SDP8', 'SDP4', 'HIGH', 'SGP4'], ctx.budget(250, 12000), 3, mix=True, one=True))
    C.update(make(ctx, ['HIGH'], ctx.budget(250, 9000), 2, mix=True))
    C.update(make(ctx, ['SDP4', 'SDP8'], ctx.budget(600, 24000), 8, regimes=DEEP))
    C.update(cached(ctx))
    C = {i: (*c, picks(ctx.rng)) for i, c in C.items()}
    sessions(ctx, C, 'interleaved and repeated propagation sessions')
