"""sat_visibility runs, judged by VisTrace (C10, C11 and its part of C02, C05, C06, C09, C16)."""
from vp import *
import tle, tools, sky, math
from sky import spell, num, rand_site, rand_mjd, mjd_text, yyday, catalogue_files, one_request


class Vis:
    def __init__(self, ctx, variant='plain'):
        self.ctx, self.exe = ctx, ctx.tool('sat_visibility', variant)
        self.S = {}
        self.root = tempfile.mkdtemp(prefix='vis_', dir=ctx.dir)

    def add(self, opts, cat, files=(), lists=(), args=None, raw=False, timeout=60):
        i = f'v{len(self.S)}'
        a = args if args is not None else spell(self.ctx.rng, opts, cat)
        if self.steps(a) > 3e6: a = ['-q'] + a
        self.S[i] = dict(files=dict(files), lists=dict(lists), args=a, raw=raw, timeout=timeout)
        return i

    @staticmethod
    def steps(args):
        """about how many steps a run takes at most; only used to leave out endless ones"""
        m, dt, i = [0.0, 0.0], 3, 0
        far = False
        while i < len(args):
            a = args[i]
            i += 1
            if a[:1] != '-' or a[1:2] not in 'adDijlrst' or len(a) < 2: continue
            v = a[2:]
            if not v:
                if i >= len(args): break
                v = args[i]; i += 1
            if a[1] == 't':
                try: dt = max(1, float(v))
                except ValueError: far = True
            elif a[1] == 'j':
                for k, x in enumerate(v.split(',')[:2]):
                    try: m[k] = float(x)
                    except ValueError: far = True
            elif a[1] == 'd':
                for k, x in enumerate((v.split(',') + [''])[:2]):
                    q = re.match(r'(\d{4})-(\d\d)-(\d\d)T', x)
                    if q: m[k] = (int(q[1]) - 1858) * 365.25 + (int(q[2]) - 11) * 30.5 + int(q[3]) - 17
                    elif x or k == 0: m[k] = 0 if k == 0 else m[k]
        d = m[1] - m[0] + (70 if any(a[:2] == '-d' for a in args) and abs(m[1] - m[0]) > .01 else 0)
        return 1e12 if far or not d == d else d * 86400 / dt

    def observe(self, ids):
        obs, jobs = [], []
        for i in ids:
            s = self.S[i]
            d = os.path.join(self.root, i)
            os.makedirs(d, exist_ok=True)
            for f, b in list(s['files'].items()) + list(s['lists'].items()):
                p = os.path.join(d.encode(), f.encode('latin-1'))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if b is None: os.makedirs(p, exist_ok=True)
                elif not os.path.exists(p):
                    with open(p, 'wb') as fh: fh.write(b)
            jobs.append((self.exe, s['args'], d, s['timeout']))
            texts, tix, files = [], {}, []
            for f, b in s['files'].items():
                lines = []
                for c in tools.fgets_chunks(b or b'', 100):
                    if c not in tix: tix[c] = len(texts) + 1; texts.append(c)
                    lines.append(tix[c])
                files.append({'path': bl('./' + f if '/' not in f else f), 'lines': lines})
            obs.append(dict(id=i, tool='sat_visibility', args=[bl(a) for a in s['args']], texts=[bl(x.split(b'\0')[0]) for x in texts] or [[]], files=files,
                            lists=[{'path': bl(f), 'rows': [bl(x) for x in tools.fgets_chunks(b or b'', 64)]} for f, b in s['lists'].items()], raw=[]))
        for o, r in zip(obs, tools.run_many(jobs)):
            o.update(tools.document(r))
            o.pop('tree')
            if self.S[o['id']]['raw'] and o['kind'] != 'usage' and len(r['out']) <= 6000: o['raw'] = list(r['out'])
        return obs

    def check(self, what, **kw):
        return self.ctx.conform('VisTrace', self.observe(list(self.S)), what, rerun=lambda i: self.observe([i]), **kw)


def span(rng, a, b):
    """-j or -d for the range"""
    if rng.random() < .6: return ('j', f'{a:.5f},{b:.5f}')
    return ('d', mjd_text(a) + rng.choice(['', '', 'Z']) + ',' + mjd_text(b))


def window_cases(ctx, W, runs):
    """satellites passing over the site, all sizes of steps, circles and filters"""
    rng = ctx.rng
    sk = ctx.tool('sat_skymap')
    d = tempfile.mkdtemp(prefix='pass_', dir=ctx.dir)
    plans, jobs = [], []
    for k in range(runs):
        mjd = rand_mjd(rng)
        reg, kw = sky.rand_body(rng, mjd)
        if reg == 'wild': reg = 'leo'
        if reg not in ('high', 'decay'): kw['bstar'] = rng.choice([0, 1e-4, -1e-5, rng.uniform(-.015, .015)])
        if reg == 'decay' and rng.random() < .8: kw['bstar'] = rng.uniform(0, .015)
        l1, l2 = sky.make_set(rng, (reg, kw), '12345', '98067A')
        with open(f'{d}/{k}', 'w') as fh: fh.write(f'SAT\n{l1}\n{l2}\n')
        plans.append((mjd, reg, l1, l2))
        jobs.append((sk, [str(k), '-l0,0,0', f'-j{mjd:.5f}', '-S', '', '-G'], d))
    for (mjd, reg, l1, l2), r in zip(plans, tools.run_many(jobs)):
        s = tools.document(r)['sats']
        lat, lon, ht = rand_site(rng)
        alt = 0.0
        if s and len(s[0]['geo']) == 4 and rng.random() < .85:
            g = [float(x) for x in s[0]['geo']]
            alt = g[2]
            off = rng.choice([0, 1, 2, 4, 10])
            lat = max(-90, min(90, g[0] + rng.uniform(-off, off)))
            lon = (g[1] + rng.uniform(-off, off) + 180) % 360 - 180
        far = alt > 3000 or reg in ('geo', 'geoinc', 'gps', 'molniya', 'gto', 'meo', 'high', 'near225')
        dt = rng.choice([1, 2, 3, 5, 10, 20, 30, 60] if not far else [10, 60, 120, 300, 600, 1800])
        n = rng.choice([3, 10, 30, 60, 90, 90])
        a = mjd - rng.random() * n * dt / 86400 * rng.choice([0, 1, 1])
        b = a + n * dt / 86400
        a, b = round(a, 5), round(b, 5)
        if rng.random() < .03: a, b = b, a
        if rng.random() < .08: b = a
        o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}'), span(rng, a, b), ('t', rng.choice([str(dt)] * 4 + [f'{dt}.7']))]
        if rng.random() < .6: o.append(('r', num(rng, rng.choice([90, 90, 100, 180, 60, 45, 30, 10, 5, 88, 92, 0, -1, rng.uniform(1, 120)]))))
        r = rng.random()
        if r < .7: sel = ('s', '12345')
        else: sel = ('i', rng.choice(['1998-067A', '1998-067', '1998']))
        o.append(sel)
        rng.shuffle(o)
        if alt and rng.random() < .15:
            x = [alt + rng.choice([-1, 1, -30, 30, -300, 300]), rng.choice([0, 1e9, alt + 500, alt - 500])]
            o.append(('a', f'{x[0]:.3f},{x[1]:.3f}'))
            if rng.random() < .3: rng.shuffle(o)
        if rng.random() < .12: o.insert(rng.randrange(len(o) + 1), ('N', None))
        W.add(o, 'c.tle', {'c.tle': f'SAT\n{l1}\n{l2}\n'.encode()})


def sunset(mjd, lat):
    """east longitude (degrees) where the Sun sets at that time, or None (low precision)"""
    n = mjd - 51544.5
    g = math.radians(357.528 + .9856003 * n)
    lam = math.radians(280.46 + .9856474 * n + 1.915 * math.sin(g) + .02 * math.sin(2 * g))
    eps = math.radians(23.439)
    ra, dec = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam)), math.asin(math.sin(eps) * math.sin(lam))
    c = -math.tan(math.radians(lat)) * math.tan(dec)
    if abs(c) > 1: return None
    gmst = 280.46061837 + 360.98564736629 * n
    return (math.degrees(ra + math.acos(c)) - gmst + 180) % 360 - 180


def night_cases(ctx, W, runs):
    """-N with the Sun setting within the range, and satellites in view when it does"""
    rng = ctx.rng
    while runs > 0:
        mjd = rand_mjd(rng)
        reg = rng.choice(['geo', 'geoinc', 'gps', 'molniya', 'gto', 'leo', 'sso', 'meo'])
        kw = dict(zip(('yy', 'day'), yyday(mjd + rng.uniform(-3, 3))), bstar=rng.choice([0, 1e-5]))
        l1, l2 = sky.make_set(rng, (reg, kw), '12345', '98067A')
        lat = rng.choice([0, rng.uniform(-66, 66), rng.uniform(-90, 90), 65.5, -67])
        lon = sunset(mjd, lat)
        if lon is None:
            if rng.random() < .5: continue
            lon = rng.uniform(-180, 180)
        runs -= 1
        dt = rng.choice([1, 5, 10, 20, 30, 60, 120, 300])
        before = rng.choice([0, rng.uniform(0, .01), rng.uniform(0, .04), rng.uniform(0, .04), .0007 * rng.randrange(20), -.01])
        a = round(mjd - before, 5)
        b = round(mjd + rng.choice([0, rng.uniform(0, .002), 20 * dt / 86400, 40 * dt / 86400, -rng.uniform(0, .01)]), 5)
        o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, rng.choice([0, 100, 3000]), 1)}'), span(rng, a, b), ('t', str(dt)), ('r', num(rng, rng.choice([180, 180, 120, 90, 90, 60]))), ('s', '12345'), ('N', None)]
        rng.shuffle(o)
        W.add(o, 'c.tle', {'c.tle': f'SAT\n{l1}\n{l2}\n'.encode()})


def late_cases(ctx, W, runs):
    """sets that can be computed only from some time on, or up to some time"""
    rng = ctx.rng
    sk = ctx.tool('sat_skymap')
    d = tempfile.mkdtemp(prefix='late_', dir=ctx.dir)
    plans, jobs = [], []
    grid = [-9, -6, -4, -3, -2.2, -1.5, -1, -.7, -.5, -.3, -.15, 0, .15, .3, .5, .7, 1, 1.5, 2.2, 3, 4, 6, 9]
    for k in range(3 * runs):
        mjd = round(rand_mjd(rng), 3)
        kw = dict(zip(('yy', 'day'), yyday(mjd)), bstar=rng.uniform(.006, .0195), n=rng.uniform(15.6, 16.45), ecc=rng.choice([1e-4, .001, .01, .02]))
        l1, l2 = sky.make_set(rng, ('leo', kw), '12345', '98067A')
        with open(f'{d}/{k}', 'w') as fh: fh.write(f'SAT\n{l1}\n{l2}\n')
        plans.append((mjd, l1, l2))
        jobs += [(sk, [str(k), '-l0,0,0', f'-j{mjd + g:.5f}', '-S', '', '-G'], d) for g in grid]
    rs = tools.run_many(jobs)
    for k, (mjd, l1, l2) in enumerate(plans):
        there = [bool(tools.document(r)['sats']) for r in rs[k * len(grid):(k + 1) * len(grid)]]
        at = [i for i in range(len(grid) - 1) if there[i] != there[i + 1]]
        if not at or runs <= 0: continue
        runs -= 1
        long = [i for i in at if there[i + 1] and grid[i + 1] - grid[i] > .7]
        i = rng.choice(long if long and rng.random() < .5 else at)
        lo, hi = mjd + grid[i], mjd + grid[i + 1]
        a = lo - rng.choice([0, .1, 1.2, rng.uniform(0, 2.5)])
        b = hi + rng.choice([0, .1, rng.uniform(0, .3)])
        dt = rng.choice([60, 300, 600, 1800])
        dt = max(dt, int((b - a) * 86400 / 250) + 1)
        lat, lon, ht = rand_site(rng)
        W.add([('l', f'{num(rng, lat)},{num(rng, lon)},0'), span(rng, round(a, 5), round(b, 5)), ('t', str(dt)), ('r', rng.choice(['180', '180', '90'])), ('s', '12345')], 'c.tle', {'c.tle': f'SAT\n{l1}\n{l2}\n'.encode()})


def shadow_cases(ctx, W, runs):
    """instants, and ranges of a few seconds, with the satellite at the edge of the shadow"""
    rng = ctx.rng
    for mjd, dt, _, sets in sky.shadow_sets(ctx, ctx.tool('sat_skymap'), runs, near=5):
        for l1, l2 in rng.sample(sets, 2):
            lat, lon, ht = rand_site(rng)
            a, b = mjd, mjd + rng.choice([0, 0, 0, 2e-5, 6e-5])
            if rng.random() < .3: a = b - 6e-5
            num_ = str(tle_number(l1))
            o = [('l', f'{num(rng, lat)},{num(rng, lon)},0'), ('j', f'{a:.5f},{b:.5f}'), ('t', '1'), ('r', '180'), ('s', num_)]
            rng.shuffle(o)
            W.add(o, 'c.tle', {'c.tle': f'SAT\n{l1}\n{l2}\n'.encode()})


def seam_cases(ctx, W, runs):
    """records of satellites on both sides of where an angle turns over"""
    rng = ctx.rng
    for name in ('ra', 'lon', 'theta'):
        flip = sky.SEAMS[name]
        for mjd, dt, site, sets in sky.edge_sets(ctx, ctx.tool('sat_skymap'), runs, lambda a, b: flip(a, b) and '1' in (sky.lit(a), sky.lit(b)), near=5):
            for l1, l2 in rng.sample(sets, 3):
                o = [('l', site), ('j', f'{mjd:.5f},{mjd + rng.choice([0, 0, 3e-5]):.5f}'), ('t', rng.choice('12')), ('r', '180'), ('s', str(tle_number(l1)))]
                rng.shuffle(o)
                W.add(o, 'c.tle', {'c.tle': f'SAT\n{l1}\n{l2}\n'.encode()})


def tle_number(l1):
    t = l1[2:7]
    if t[0].isdigit(): return int(t)
    return 'ABCDEFGHJKLMNPQRSTUVWXYZ'.index(t[0]) * 10000 + 100000 + int(t[1:])


def run_c10(ctx):
    ctx.design('WindowMC', cfg='WindowMC7.cfg' if ctx.thorough else None)
    if ctx.thorough: ctx.design('WindowMC')
    W = Vis(ctx)
    window_cases(ctx, W, ctx.budget(260, 4000))
    night_cases(ctx, W, ctx.budget(50, 700))
    late_cases(ctx, W, ctx.budget(28, 400))
    shadow_cases(ctx, W, ctx.budget(25, 400))
    seam_cases(ctx, W, ctx.budget(8, 100))
    W.check('windows of satellites passing over the site')


run_c11 = run_c10


# ------------------------------------------------------------------ everything but the scan
def when_opts(rng, mjd):
    """a range of a few steps"""
    b = mjd + rng.choice([0, 1e-5, 2e-4, 5e-4, 1e-3])
    return span(rng, round(mjd, 5), round(b, 5))


def vis_opts(rng, mjd):
    lat, lon, ht = rand_site(rng)
    o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}'), when_opts(rng, mjd)]
    if rng.random() < .7: o.append(('r', rng.choice(['180', '180', '200', '90', '45'])))
    if rng.random() < .6: o.append(('t', rng.choice(['1', '10', '30', '60'])))
    if rng.random() < .1: o.append(('N', None))
    return o


def c02_cases(ctx, W, runs):
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        cat, files, lists = sky.small_world(rng, mjd) if rng.random() < .4 else catalogue_files(rng, mjd, rng.choice([1, 3, 6, 12, 20]), fail=rng.random() < .3)
        o = vis_opts(rng, mjd)
        o.append(one_request(rng, files))
        if rng.random() < .15: o.append(one_request(rng, files))
        o = [x for x in o if x[0] != 'S']
        if rng.random() < .15: o.append(('a', f'{rng.uniform(0, 1500):.1f},{rng.uniform(0, 40000):.1f}'))
        rng.shuffle(o)
        W.add(o, cat, files, lists)


BADVIS = ['-l91,0', '-l-90.1,5', '-l90.00001,0', '-lnan,0', '-l0,inf', '-l0,0,nan', '-rnan', '-rinf', '-jnan', '-jinf', '-j1e30', '-j1e30,1e30', '-j-1e30', '-j58000,-5', '-j58000,nan', '-dx', '-d2020', '-x', '-Z', '-', '--', '--help', '-hh', '-E', '-G', '-H', '-I', '-V', '-S',
          '-p1,2', '-n5', '-Nx', '-N1', '-T/x', '-5', '-t0', '-t0.5', '-t-3', '-tx', '-t', '-tnan', '-a', '-l', '-i', '-a1,nan', '-h', '-q', '-\xff', '-"', '-\x01', '-N', '-T']


def c05_cases(ctx, W, runs):
    import docs
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        cat, files, lists = sky.small_world(rng, mjd, nopos=.3) if rng.random() < .2 else docs.odd_files(rng, mjd, rng.choice([1, 2, 4, 6]))
        o = vis_opts(rng, mjd)
        r = rng.random()
        if r < .85 and any(files.values()): o.append(tuple(x.replace('\0', '') for x in one_request(rng, {f: b for f, b in files.items() if b})))
        elif r < .95: o.append(rng.choice([('s', '5'), ('i', ''), ('i', 'none'), ('s', '12345')]))
        o = [x for x in o if x[0] != 'S']
        if rng.random() < .1: o = [x for x in o if x[0] != 'l']
        if rng.random() < .15: o.append(('a', rng.choice(['300,400', '0,1e9', '1e6,2e6', '40000,0', 'x', ''])))
        if rng.random() < .1: o = [x for x in o if x[0] not in 'dj'] + [('d', rng.choice(['2020-01-13', 'x', '"-', '2020-01-13T12:00:00Z,-', '\xff-\xff,\xe9', '9999-99-99T99:99:99,9999-99-99T99:99:99', ',-', '-', '"-","', '2020-01-13T12:00:00,2020-01-13T12:00:10']))]
        if rng.random() < .1: o.append((rng.choice('DT'), rng.choice(['/nowhere', 'a"b', '\xe9', 'sub', '.', docs.odd_text(rng).decode('latin-1')])))
        o = [(l, None if l == 'T' else v) for l, v in o]
        rng.shuffle(o)
        extra = []
        if rng.random() < .2: extra.append(rng.choice(BADVIS))
        if rng.random() < .2: extra.append(rng.choice(['', 'extra', '"', '\xe9\xe9', 'x\ny', '{"'] + [docs.odd_text(rng).decode('latin-1')] * 4))
        a, _ = docs.args_with(rng, o, cat, extra)
        if rng.random() < .02: a = a[:rng.randrange(len(a) + 1)]
        W.add(o, cat, files, lists, args=a, raw=True)
    for a in ([], ['-h'], ['c.tle'], ['c.tle', '-l0,0,0'], ['@c', '-l0,0,0']): W.add([], '', {}, {}, args=a, raw=True)


def c06_cases(ctx, W, runs):
    import docs
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        files = {nm: sky.rand_catalogue(rng, mjd, rng.choice([1, 3, 5]), plain=True) for nm in ('./cat.tle', 'sub/cat.tle')}
        lists = {'./all.lis': b'cat.tle\n', 'sub/all.lis': b'cat.tle\n'}
        cat = rng.choice(['cat.tle', 'cat.tle', './cat.tle', 'sub/cat.tle', '@all.lis', 'none.tle', '@none.lis'])
        lat, lon, ht = rand_site(rng)
        if rng.random() < .2: lon = rng.choice([-1, 1]) * rng.choice([rng.uniform(180, 360), rng.uniform(180, 182), rng.uniform(359, 361), rng.uniform(360, 800)])
        o = []
        if rng.random() < .97:
            o.append(('l', rng.choice([f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}'] * 5 + [f'{lat:.3f},{lon:.3f}', f'{lat:.2f}', f'{lat:.6e},{lon:.6e}', f' {lat:.3f}, {lon:.3f}', f'{lat:+.3f},{lon:+.3f}', f'{lat:.3f},{lon:.3f},', f'{lat:.3f},,5', '', ',', 'x', '90,360', '-90,-180,0', f'{int(lat)},{int(lon)},{int(ht)}'])))
        b = mjd + rng.choice([0, 1e-4, 1e-3])
        both = lambda: (mjd, b) if rng.random() < .6 else tuple(max(0, mjd + rng.choice([0, .25, -.25, 1e-3, -1e-3])) for _ in 'ab')
        first, last = both()
        if rng.random() < .6: o.append(('j', rng.choice([f'{first:.5f},{last:.5f}'] * 4 + [f'{mjd:.2f},{mjd:.2f}', f'{int(mjd)},{int(mjd)}', f'{mjd:.5f}', '0,0', f' {mjd:.5f},{b:.5f}x', '58861.5,58861.5001', '2973483,2973483', '5', f'{b:.5f},{mjd:.5f}', '-5', '1e4,1e4', 'x', ',5'])))
        first, last = both()
        if rng.random() < .5: o.append(('d', rng.choice([mjd_text(first) + ',' + mjd_text(last)] * 4 + [mjd_text(mjd) + '.5,' + mjd_text(b) + '.25', mjd_text(mjd), mjd_text(mjd)[:10], 'x', mjd_text(mjd).replace('T', ' ') + ',' + mjd_text(b).replace('T', ' '), mjd_text(mjd) + ',x'])))
        if rng.random() < .7: o.append(('r', rng.choice([num(rng, rng.uniform(0, 180)), '400', '90', '1e2', '0', '-5', 'x', '', '20.', '+20'])))
        if rng.random() < .5: o.append(('t', rng.choice(['1', '10', '600', '0', '-30', '1.9', 'x', '1e2', '60,5', '0.5', '2147483647', '1e10'])))
        if rng.random() < .3: o.append(('a', rng.choice(['300,40000', '40000,300', '500', ',500', 'x', '1e3,1e5', '-1,1e9', '0,inf', '400.5,400.5'])))
        if rng.random() < .95:
            q = one_request(rng, files)
            if q[0] != 'S': o.append(q)
        if rng.random() < .3: o.append(('D', rng.choice(['sub', './sub', 'nowhere', '.', 'sub/', '', '/nonexistent/dir'])))
        if rng.random() < .2:
            o.append(('T', None))
            if rng.random() < .6: o.append(('D', rng.choice(['sub', '.', './sub', 'sub/'])))
        if rng.random() < .15: o.append(('N', None))
        if rng.random() < .15 and o:
            l, v = rng.choice(o)
            o.append((l, None if v is None else rng.choice([v, v, '10', '20.5,30.5', '58900.5'])))
        rng.shuffle(o)
        extra = [rng.choice(BADVIS + ['-h'])] if rng.random() < .2 else []
        if rng.random() < .2: extra.append(rng.choice(['extra', '', 'none.tle', '5']))
        W.add(o, cat, files, lists, args=docs.args_with(rng, o, cat, extra)[0])


def epoch_cases(ctx, W, runs):
    """epochs all over the calendar, one satellite that is found"""
    rng = ctx.rng
    l1, l2 = tle.tle(num='12345', desig='98067A', yy=20, day=13.5)
    cat = f'SAT\n{l1}\n{l2}\n'.encode()
    for _ in range(runs):
        lat, lon, ht = rand_site(rng)
        mjd = rng.choice([rng.uniform(15020, 88069), rng.uniform(0, 2973480), rng.uniform(50000, 65000), rng.uniform(58000, 60000), rng.randrange(40000, 70000), rng.randrange(40000, 70000) + .5, *[sky.sky_turn(rng, lon)] * 4])
        mjd = round(mjd, rng.choice([5, 5, 5, 2, 8, 8]))
        b = rng.choice([mjd, mjd, mjd - 1, mjd + 1e-4])
        if rng.random() < .5: w = ('j', f'{mjd!r},{b!r}')
        else: w = ('d', mjd_text(mjd) + rng.choice(['', 'Z', '.500']) + ',' + mjd_text(max(b, 0)))
        if '-' in w[1] and w[0] == 'j': continue
        o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}'), w, ('s', '12345'), ('r', rng.choice(['0', '0', '90', '180']))]
        rng.shuffle(o)
        W.add(o, 'c.tle', {'c.tle': cat})
