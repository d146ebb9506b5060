"""C09 (dates) and C16 (sidereal time, Sun, horizon, separations)."""
from vp import *
import math, time


def hexf(x):
    return float(x).hex() if math.isfinite(x) else repr(x)


def obs(i, kind, args, ans, **kw):
    o = {'id': i, 'k': kind, 'a': [hexf(x) for x in args], 'f': [], 'rc': 0, 't': [], 'null': False, 'frac': False, 'ts': [], 'crash': ''}
    o.update(kw)
    if ans and ans[0] == 'crash':
        o['crash'] = ans[1]
    return o


def date_cases(ctx):
    rng = ctx.rng
    C = {}
    k = 0
    def add(kind, v):
        nonlocal k
        C[f'{kind}{k}'] = (kind, v); k += 1
    n = ctx.budget(900, 12000)
    ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    def leap(y): return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    for _ in range(n):
        y = rng.choice([rng.randrange(1858, 2200), rng.randrange(1858, 9999), rng.choice([1899, 1900, 1999, 2000, 2001, 2004, 2100, 2400, 9999])])
        m = rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13)])
        ml = 29 if m == 2 and leap(y) else ML[m - 1]
        d = rng.choice([1, ml, rng.randrange(1, ml + 1), min(28, ml)])
        h, mi, s = rng.choice([(0, 0, 0), (23, 59, 59), (12, 0, 0), (rng.randrange(24), rng.randrange(60), rng.randrange(60))])
        add('d2m', f'{y:04d}-{m:02d}-{d:02d}T{h:02d}:{mi:02d}:{s:02d}' + rng.choice(['', '', '.5', '.999', 'Z']))
    for t in ['', '-', 'x', '2020', '2020-01', '2020-01-13', '2020-01-13T', '2020-01-13T12', '2020-01-13T12:00', '2020-01-13T12:00:', '2020/01/13T12:00:00', '2020-01-13 12:00:00',
              '20200113T120000', '2020-01-13t12:00:00', 'abcd-01-13T12:00:00', '2020-ab-13T12:00:00', '2020-01-13T12:00:xx', '58861.5', 'T12:00:00', '2020-01-13T12.00.00', '  ', '2020--1-13T12:00:00', '2020-01-13T12:00:00', ' 2020-01-13T12:00:00', '2020-1-3T1:2:3', '2020-02-29T00:00:00', '1900-02-28T23:59:59', '12020-01-13T12:00:00']:
        add('d2m', t)
    base = '2020-01-13T12:34:56'
    for _ in range(n // 6):
        b = list(base); b[rng.randrange(19)] = rng.choice('x-:T /a.'); add('d2m', ''.join(b))
    for _ in range(n):
        r = rng.random()
        if r < .3: m = rng.uniform(0, 120000)
        elif r < .4: m = float(rng.randrange(-678575, 2973483))
        elif r < .55: m = rng.randrange(0, 100000) + (rng.randrange(86400) + rng.choice([0, .5, .4999, .5001, .999, 1e-3, 1e-6, -1e-6, -1e-3, .0005])) / 86400
        elif r < .65: m = rng.randrange(0, 100000) + rng.choice([0, -1e-9, 1e-9, -5.787e-6, -5.78e-6, -5.79e-6, .9999999999, .99999421])
        elif r < .8: m = rng.uniform(-678575, 2973483)
        else: m = rng.randrange(30000, 80000) + rng.randrange(86400) / 86400 + rng.randrange(1000) / 8.64e7
        add('m2d', m); add('m2df', m)
    for m in [-2468570.0, -2468569.9, -2468571, 997599999.5, 997600000, 1e9, 1e12, -1e12, 1e300, -678575, 2973483.99, 0.0, -0.5, 0.5, 15019.99999999, 51543.999999999, 51544]:
        add('m2d', m); add('m2df', m)
    # monotonic sequences with small steps
    for _ in range(n // 20):
        b = rng.choice([rng.uniform(40000, 70000), float(rng.randrange(0, 90000)), rng.uniform(100, 2900000)])
        st = rng.choice([1e-9, 1e-7, 1e-6, 3e-6, 1e-5, 5e-4, .3])
        add(rng.choice(['mono', 'monof']), [b + (j - 6) * st * rng.choice([1, 1, .5]) if j else b - 6.1 * st for j in range(14)])
    return C


def run_c09(ctx):
    ctx.design('CalendarMC', env={'BIG': '1' if ctx.thorough else '0'})
    C = date_cases(ctx)

    def observe(ids):
        cmds = []
        for i in ids:
            k, v = C[i]
            if k == 'd2m': cmds.append('d2m ' + hx(v))
            elif k in ('m2d', 'm2df'): cmds.append(f'{k} {hexf(v)}')
            else: cmds.append([('m2d ' if k == 'mono' else 'm2df ') + hexf(x) for x in sorted(v)])
        out = []
        for i, a in zip(ids, ctx.calls(cmds)):
            k, v = C[i]
            if k == 'd2m':
                out.append(obs(i, 'd2m', [], a, t=bl(v), rc=0 if a[0] == 'crash' else int(a[0]), f=[] if a[0] == 'crash' else a[1:2]))
            elif k in ('m2d', 'm2df'):
                out.append(obs(i, 'm2d', [v], a, null=a[0] == '0', t=[] if a[0] in ('crash', '0') else bl(unhx(a[1])), frac=k == 'm2df'))
            else:
                cr = next((x for x in a if x[0] == 'crash'), ['1'])
                out.append(obs(i, 'mono', sorted(v), cr, ts=[bl(unhx(x[1])) for x in a if x[0] == '1'] if cr[0] != 'crash' else []))
        return out
    ctx.conform('AstroTrace', observe(list(C)), 'date and MJD conversions called in the library', rerun=lambda i: observe([i]))

    def now(ids):
        exe = ctx.tool('mjdnow')
        out = []
        for i in ids:
            t0 = time.time()
            r = subprocess.run([exe], stdout=subprocess.PIPE, env=ENV, timeout=20)
            t1 = time.time()
            txt = r.stdout.decode('latin-1').strip()
            out.append(obs(i, 'now', [t0, t1], None if r.returncode == 0 else ['crash', str(r.returncode)], f=[txt if re.fullmatch(r'-?[0-9.]+', txt) else 'nan']))
        return out
    ctx.conform('AstroTrace', now(['now1', 'now2']), 'mjdnow runs', rerun=lambda i: now([i]))
    # the same epoch given as a date or as an MJD, through both programs
    import cli
    cli.epoch_runs(ctx)


def sky_cases(ctx):
    rng = ctx.rng
    C = {}
    k = 0
    def add(kind, *v):
        nonlocal k
        C[f'{kind}{k}'] = (kind, [float(x) for x in v]); k += 1
    n = ctx.budget(700, 15000)
    def jd():
        r = rng.random()
        if r < .4: return 2400000.5 + rng.uniform(15020, 88069)
        if r < .5: return 2400000.5 + rng.uniform(0, 2973483)
        if r < .6: return 2400000.5 + rng.randrange(15020, 90000)
        if r < .7: return 2400000.0 + rng.randrange(15020, 90000)
        if r < .8: return 2400000.5 + rng.randrange(15020, 90000) + rng.choice([1e-9, -1e-9, .5 + 1e-9, .5 - 1e-9, .999999999])
        if r < .9: return 2451544.5 + rng.choice([0, .5, .25, -.5, 1, 36525])
        return 2400000.5 + rng.uniform(50000, 65000)
    def seam(lon_deg):
        """an instant at which the mean sidereal time passes a whole turn; one in two in the days of September
        on which two turns add up in one day"""
        y = rng.randrange(1950, 2050)
        day = 2400000.5 + (y - 1900) * 365.25 + 15020 + (rng.choice([262, 263, 264]) if rng.random() < .6 else rng.randrange(366))
        day = math.floor(day) + .5
        T = (day - 2451545) / 36525
        g0 = (24110.54841 + 8640184.812866 * T + .093104 * T * T) / 86400
        ut = (math.ceil(g0 + lon_deg / 360) - g0 - lon_deg / 360) / 1.00273790934 + rng.choice([0, 0, 1 / 1.00273790934])
        ut += rng.choice([rng.uniform(-1e-9, 1e-9), rng.uniform(-1e-5, 1e-5), rng.uniform(-2e-5, 2e-5), rng.uniform(-.002, .002), rng.uniform(-.002, .002)])
        return day + (ut if 0 <= ut < 1 else rng.choice([1 - 10 ** -rng.uniform(2.5, 7), 10 ** -rng.uniform(2.5, 7)]))
    def lon(): return rng.choice([0, 360, 180, 90, 359.9999, .0001, rng.uniform(0, 360)])
    hp = math.pi / 2
    def dec(): return rng.choice([0, hp, -hp, 1e-9, hp - 1e-9, 1e-9 - hp, math.radians(89.99), -math.radians(89.9), rng.uniform(-hp, hp), rng.uniform(-hp, hp), rng.uniform(-hp, hp)])
    def lat(): return rng.choice([0, 90, -90, 89.9999, -89.9999, 1e-7, 45, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-90, 90)])
    for _ in range(n):
        l = lon()
        add('lmst', seam(rng.choice([0, l])) if rng.random() < .4 else jd(), l)
        r = rng.random()          # also around the instants of right ascension 0, 90, 180 and 270 deg, and in other centuries
        add('sun', jd() if r < .8 else 2451623.8157 + 365.2422 * rng.randrange(-100, 100) + rng.choice([0, 0, 0, 92.75, 186.4, 276.2]) + rng.choice([1, -1]) * 10 ** rng.uniform(-4, .5))
        la, de = lat(), dec()
        h = rng.choice([0, 12, 24, -12, 6, 18, -6, 23.9999999, 1e-9, -1e-9, rng.uniform(-24, 24), rng.uniform(-24, 24), rng.uniform(0, 24)])
        if rng.random() < .15: de = math.radians(la) + rng.choice([0, 0, 1e-7, -1e-7, 1e-5])
        add('horiz', de, h, la)
        a = [rng.uniform(-math.pi, 2 * math.pi), rng.uniform(-hp, hp), rng.uniform(-math.pi, 2 * math.pi), rng.uniform(-hp, hp)]
        r = rng.random()
        if r < .1: a[2:] = a[:2]
        elif r < .2: a[2], a[3] = a[0] + rng.choice([1e-9, 1e-6, 1e-3]), a[1]
        elif r < .3: a[2], a[3] = a[0], a[1] + rng.choice([1e-9, 1e-6, -1e-4])
        elif r < .4: a[2], a[3] = a[0] + math.pi * rng.choice([1, -1]), -a[1]
        elif r < .5: a[1] = rng.choice([hp, -hp])
        elif r < .6: a[2] = a[0] + rng.choice([2 * math.pi, -2 * math.pi, math.pi])
        elif r < .7: a[0], a[2] = rng.uniform(0, .1), 2 * math.pi - rng.uniform(0, .1)
        a[0] = min(max(a[0], -math.pi), 2 * math.pi); a[2] = min(max(a[2], -math.pi), 2 * math.pi)
        a[1] = min(max(a[1], -hp), hp); a[3] = min(max(a[3], -hp), hp)
        add('sep', *a)
    for _ in range(n // 2):
        add('prec', jd() if rng.random() < .3 else 2451545 + rng.choice([1, -1]) * 10 ** rng.uniform(-3, 3) if rng.random() < .3 else 2400000.5 + rng.uniform(40000, 65000), rng.choice([0, math.pi, rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi), 1e-6, 6.2831853]), dec())
        add('obs', jd(), math.radians(lon()), math.radians(lat()), rng.choice([0, 2400, -400, 8848, 1e6, rng.uniform(0, 5000)]))
        o = [rng.uniform(-6400, 6400) for _ in range(3)]
        add('radec', *o, *(x + rng.choice([rng.uniform(-40000, 40000), rng.uniform(-500, 500), 1e-3, 0 if j else 1]) for j, x in enumerate(o)))
        l = rng.uniform(-180, 359)
        add('sid', seam(rng.choice([0, l, l])) - 2400000.5 if rng.random() < .5 else 51544.5 + rng.uniform(-20000, 20000), l)
    for _ in range(ctx.budget(200, 4000)):
        t, ts = 2451545 + rng.choice([rng.uniform(-20000, 20000), rng.uniform(-20000, 20000), rng.uniform(-100000, 300000), rng.uniform(0, 11000), 0]), []
        for _ in range(rng.randrange(1, 6)):
            ts.append(t)
            t = rng.choice([t, t + rng.choice([-1, 1]) * rng.choice([.003, .006, .0099, .0101, .02, 1, rng.uniform(0, 20000)]), rng.choice(ts)])
        add('tilt', *ts)
    return C


def run_c16(ctx):
    ctx.design('AstroMC', env={'BIG': '1' if ctx.thorough else '0'})
    C = sky_cases(ctx)

    def observe(ids):
        cmds = []
        for i in ids:
            k, a = C[i]
            s = ' '.join(map(hexf, a))
            cmds.append([f'sep {s}', 'sep ' + ' '.join(map(hexf, a[2:] + a[:2]))] if k == 'sep' else f'{k} {len(a) if k == "tilt" else ""} {s}')
        out = []
        for i, a in zip(ids, ctx.calls(cmds)):
            k, v = C[i]
            if k == 'sep':
                cr = next((x for x in a if x[0] == 'crash'), None)
                out.append(obs(i, k, v, cr, f=[] if cr else [a[0][1], a[1][1]]))
            elif k == 'sid':
                out.append(obs(i, k, v, a, f=[] if a[0] == 'crash' else [a[1], a[2], a[3], a[5], a[7]]))
            else:
                out.append(obs(i, k, v, a, f=[] if a[0] == 'crash' else a[1:]))
        return out
    ctx.conform('AstroTrace', observe(list(C)), 'sidereal time, Sun, horizon, separation and coordinate functions called in the library', rerun=lambda i: observe([i]))
    import cli
    cli.c16_runs(ctx)
