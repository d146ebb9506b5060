"""sat_skymap runs: the walk through the catalogue (C02, C03, C04, C05, C14) and what single runs report (C01, C14, C15, C16)."""
from vp import *
import tle, tools, math, hashlib

VALUED = 'adDijlnprsSt'


# ------------------------------------------------------------------ command lines
def spell(rng, opts, cat, first=None):
    """opts: (letter, value or None) in order; every spelling and place of the catalogue"""
    a = []
    for l, v in opts:
        if v is None: a.append('-' + l)
        elif v == '' or rng.random() < .4: a += ['-' + l, v]
        else: a.append('-' + l + v)
    if not a: return [cat]
    first = rng.random() < .6 if first is None else first
    return [cat] + a if first else a + [cat]


def num(rng, x, d=None):
    """one of the ways to write a number"""
    d = rng.choice([2, 4, 6]) if d is None else d
    return f'{x:.{d}f}'


def sky_turn(rng, lon):
    """an instant next to which a sidereal time or a coordinate of the Sun turns over, or the Sun crosses the meridian"""
    def gmst(d): return (280.46061837 + 360.98564736629 * d) % 360
    def sun(d):
        g = math.radians(357.528 + .9856003 * d)
        l = math.radians(280.46 + .9856474 * d + 1.915 * math.sin(g) + .02 * math.sin(2 * g))
        return math.degrees(math.atan2(math.cos(math.radians(23.439)) * math.sin(l), math.cos(l))) % 360
    what = rng.choice(['gmst', 'lmst', 'sunlon', 'sunlon', 'sunha', 'sunra'])
    d = rng.uniform(-15000, 15000)
    goal = 0 if what in ('gmst', 'lmst', 'sunra') else rng.choice([0, 180])
    for _ in range(8):
        x, rate = {'gmst': (gmst(d), 360.9856), 'lmst': (gmst(d) + lon, 360.9856), 'sunra': (sun(d), .9856), 'sunlon': (sun(d) - gmst(d), -360), 'sunha': (gmst(d) + lon - sun(d), 360)}[what]
        d -= ((x - goal + 180) % 360 - 180) / rate
    return 51544.5 + d + rng.choice([1, -1]) * 10 ** rng.uniform(-5, -2) * (50 if what == 'sunra' else 1)


def rand_site(rng):
    lat = rng.choice([0, 90, -90, 89.9999, 44.5, -29.25627, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-60, 60)])
    lon = rng.choice([0, 180, -180, 359.9999, -70.73805, 11.33715, rng.uniform(-180, 180), rng.uniform(0, 360), rng.uniform(-180, 360)])
    return lat, lon, rng.choice([0, 2400, 23.5, -400, 8848, rng.uniform(0, 5000)])


def mjd_text(m):
    """yyyy-mm-ddThh:mm:ss of an MJD (to the second, truncated)"""
    d = int(math.floor(m))
    s = int(round((m - d) * 86400))
    if s >= 86400: d, s = d + 1, s - 86400
    a = d + 2400001 + 32044
    b = (4 * a + 3) // 146097
    c = a - 146097 * b // 4
    e = (4 * c + 3) // 1461
    f = c - 1461 * e // 4
    g = (5 * f + 2) // 153
    return f'{100 * b + e - 4800 + g // 10:04d}-{g + 3 - 12 * (g // 10):02d}-{f - (153 * g + 2) // 5 + 1:02d}T{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}'


def yyday(m):
    """TLE epoch of an MJD"""
    y = int(mjd_text(m)[:4])
    j = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 - 678575
    return y % 100, round(m - j + 1, 8)


NAMES = ['ISS (ZARYA)', 'STARLINK-23', 'STARLINK-1007', 'STARLINK', 'COSMOS 2251 DEB', '1KUNS-PF', '2 SATELLITES IN ONE', '1', '12345', 'A', 'GAIA', 'X' * 22, 'Y' * 23, 'Z' * 24, 'W' * 40,
         'NAME "QUOTED"', 'BACK\\SLASH', 'TAB\tNAME', 'CTRL\x01NAME', ' LEADING', 'trailing   ', 'OBJECT A', 'OBJECT B', "it's"]


def rand_body(rng, mjd):
    """regime and elements good near mjd"""
    yy, day = yyday(mjd + rng.choice([0, rng.uniform(-3, 3), rng.uniform(-.5, .5), rng.uniform(-30, 30)]))
    r = rng.random()
    if r < .06:
        R = rng.choice([1.5e9, 1e9, 4e8, 1e8])
        u = [rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in u))
        return 'high', dict(yy=yy, day=round(day, 8), pos=[R * x / n for x in u], vel=[rng.uniform(-1e7, 1e7) for _ in range(3)])
    reg = rng.choice(['leo', 'leo', 'leo', 'leo2', 'sso', 'low', 'ecc', 'meo', 'gps', 'molniya', 'gto', 'geo', 'geoinc', 'decay', 'near225', 'wild' if rng.random() < .3 else 'leo'])
    return reg, dict(yy=yy, day=day)


def make_set(rng, body, numtext, desig):
    reg, kw = body
    if reg == 'high': return tle.high(num=numtext, desig=desig, **kw)
    return tle.rand_tle(random.Random(json.dumps([reg, kw, rng.random()])), reg, num=numtext, desig=desig, **kw)


def rand_catalogue(rng, mjd, n, pool=None, plain=False):
    """text of a catalogue file; pool: numbers to draw from"""
    pool = pool or [tle.num5(rng.choice([rng.randrange(1, 99999), rng.randrange(1, 99999), rng.randrange(100000, 339999)])) for _ in range(max(2, n * 2 // 3))]
    out = []
    eol = '\r\n' if rng.random() < .15 else '\n'
    named = rng.random() < .85
    last = None
    for _ in range(n):
        if last and rng.random() < .1: l1, l2 = last
        else: l1, l2 = make_set(rng, rand_body(rng, mjd), rng.choice(pool), rng.choice(['98067A', '19074B', '57001A', '20001BB', '', '00123ABC', '99025AXY']))
        last = l1, l2
        nm = rng.choice(NAMES) if rng.random() < .7 else 'SAT ' + str(rng.randrange(4))
        if plain: out += [nm if nm.strip() else 'A', l1, l2]; continue
        r = rng.random()
        if r < .03: l2 = l2[:68] + str((int(l2[68]) + 1) % 10)
        elif r < .06: l1 = l1[:68] + str((int(l1[68]) + 3) % 10)
        elif r < .08: l1 = l1[:rng.randrange(5, 69)]
        elif r < .10: l2 = l2 + ' TRAILING TEXT ' + 'x' * rng.choice([0, 5, 40])
        if named and rng.random() < .95: out.append(nm)
        r = rng.random()
        out.append(l1)
        if r < .02: out.append('')
        elif r < .04: out.append('# junk')
        out.append(l2)
        if r > .98: out.append(l2)
        if r > .96: out.append('')
    t = eol.join(out)
    if rng.random() < .9: t += eol
    return t.encode('latin-1')


# ------------------------------------------------------------------ walks, judged by ListTrace
class Walks:
    """scenarios: args, files, lists, opts, cat; facts measured with sets alone in the catalogue"""

    def __init__(self, ctx, variant='plain'):
        self.ctx, self.exe = ctx, ctx.tool('sat_skymap', variant)
        self.S = {}
        self.root = tempfile.mkdtemp(prefix='walk_', dir=ctx.dir)
        self.fact_files = {}

    def add(self, opts, cat, files=(), lists=(), mode='same', args=None, raw=False, timeout=60, first=None):
        i = f'w{len(self.S)}'
        self.S[i] = dict(opts=opts, cat=cat, files=dict(files), lists=dict(lists), mode=mode, args=args if args is not None else spell(self.ctx.rng, opts, cat, first), raw=raw, timeout=timeout)
        return i

    def measure_args(self, s):
        o = s['opts']
        single = any(l in 'si' for l, _ in o)
        named = any(l == 'S' for l, _ in o)
        cut = max([k for k, (l, _) in enumerate(o) if l in 'si'], default=-1)
        res = []
        for k, (l, v) in enumerate(o):
            if l in 'siSnIDTh' or l == 'G': continue
            if single and l == 'p': continue
            if l == 'a' and (k < cut or s['mode'] == 'plain'): continue
            if l == 'V' and s['mode'] == 'plain': continue
            res.append((l, v))
        a = []
        for l, v in res + [('G', None)] + ([('S', '')] if single or named else []):
            a += ['-' + l] if v is None else ['-' + l, v]
        return a

    def observe(self, ids):
        obs, jobs, fjobs, plan = [], [], [], []
        fd = os.path.join(self.root, 'facts')
        os.makedirs(fd, exist_ok=True)
        for i in ids:
            s = self.S[i]
            d = os.path.join(self.root, i)
            os.makedirs(d, exist_ok=True)
            for f, b in list(s['files'].items()) + list(s['lists'].items()):
                p = os.path.join(d.encode(), f.encode('latin-1'))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if b is None: os.makedirs(p, exist_ok=True)
                elif not os.path.exists(p):
                    with open(p, 'wb') as fh: fh.write(b)
            jobs.append((self.exe, s['args'], d, s['timeout']))
            texts, tix, fix, facts, files = [], {}, {}, [], []
            ma = self.measure_args(s)
            for f, b in s['files'].items():
                ch = tools.fgets_chunks(b or b'', 100)
                lines, pairs = [], []
                for k, c in enumerate(ch):
                    if c not in tix: tix[c] = len(texts) + 1; texts.append(c)
                    lines.append(tix[c])
                    a = ch[k - 1] if k else b''
                    if s['mode'] != 'none' and a[:1] == b'1' and c[:1] == b'2' and b'\0' not in a + c:
                        # facts do not depend on number and designator
                        key = (self.anon(a), self.anon(c))
                        if key not in fix:
                            fix[key] = len(facts) + 1
                            facts.append(None)
                            t = b'X\n' + b''.join(x + (b'' if x.endswith(b'\n') else b'\n') for x in ((a, c) if key[0] == a else key))
                            h = hashlib.sha1(t).hexdigest()[:16] + '.tle'
                            if h not in self.fact_files:
                                with open(os.path.join(fd, h), 'wb') as fh: fh.write(t)
                                self.fact_files[h] = 1
                            fjobs.append((self.exe, [h] + ma, fd))
                            plan.append((facts, fix[key] - 1))
                        pairs.append(fix[key])
                    else: pairs.append(0)
                files.append({'path': bl('./' + f if '/' not in f else f), 'lines': lines, 'pairs': pairs})
            obs.append(dict(id=i, tool='sat_skymap', args=[bl(a) for a in s['args']], texts=[bl(x.split(b'\0')[0]) for x in texts] or [[]], files=files,
                            lists=[{'path': bl(f), 'rows': [bl(x) for x in tools.fgets_chunks(b or b'', 64)]} for f, b in s['lists'].items()], facts=facts, mode=s['mode'], raw=[]))
        rs = tools.run_many(jobs + fjobs)
        docs = {}
        for o, r in zip(obs, rs[:len(jobs)]):
            o.update(tools.document(r))
            o.pop('tree')
            if self.S[o['id']]['raw'] and o['kind'] != 'usage' and len(r['out']) <= 6000: o['raw'] = list(r['out'])
            self.paths(o)
        for (facts, k), r in zip(plan, rs[len(jobs):]):
            if id(r) not in docs: docs[id(r)] = self.fact(r)
            facts[k] = docs[id(r)]
        for o in obs:
            if not o['facts']: o['facts'] = [self.fact(None)]
        return obs

    def paths(self, o):
        """files are there under the path given or relative to the directory option"""
        pass

    @staticmethod
    def anon(l):
        """the line with catalogue number 00001, checksum right if it was"""
        t = l.decode('latin-1')
        if len(t) < 69 or not t[68].isdigit(): return l
        ok = tle.ck(t) == t[68]
        u = t[:2] + '00001' + t[7:9] + ('98001A  ' + t[17:68] if t[0] == '1' else t[9:68])
        if len(u) != 68: return l
        return (u + (tle.ck(u) if ok else str((int(tle.ck(u)) + 5) % 10)) + t[69:]).encode('latin-1')

    @staticmethod
    def fact(r):
        f = {'res': 'reject', 'lit': False, 'geo': ['nan'] * 4, 'data': ['']}
        if r is None: return f
        d = tools.document(r)
        if d['kind'] != 'json': f['res'] = 'reject'; f['data'] = ['no document: ' + d['crash']]
        elif d['nsats'] == 1 and len(d['sats'][0]['data']) == 10:
            s = d['sats'][0]
            f.update(res='pass', lit=s['data'][8] == '1', geo=s['geo'] or ['nan'] * 4, data=s['data'])
        elif d['leaf'].get('status', {}).get('t', '0') != '0': f['res'] = 'abort'
        return f

    def check(self, what, **kw):
        big = [i for i, s in self.S.items() if sum(len(b or b'') for b in s['files'].values()) > 400000]
        bad = self.ctx.conform('ListTrace', self.observe([i for i in self.S if i not in big]), what, rerun=lambda i: self.observe([i]), **kw)
        if not bad and big:
            bad = self.ctx.conform('ListTrace', self.observe(big), what + ': long catalogues', rerun=lambda i: self.observe([i]), brief=True, **kw)
        return bad


def base_opts(rng, mjd):
    lat, lon, ht = rand_site(rng)
    o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}')]
    if rng.random() < .5: o.append(('j', f'{mjd:.5f}'))
    else: o.append(('d', mjd_text(mjd) + rng.choice(['', '', '.5'])))
    return o


def region_opts(rng, wide=True):
    o = []
    r = rng.random()
    if r < .04: o.append(('p', rng.choice(['0,0', '0,0', '360,0', '0.0,0.0', '0,90', '0'])))
    elif r < .6: o.append(('p', f'{num(rng, rng.choice([0, 360, 359.9, .1, rng.uniform(0, 360), rng.uniform(0, 360)]))},{num(rng, rng.choice([90, -90, 89, rng.uniform(-90, 90), rng.uniform(-90, 90), rng.uniform(-60, 60)]))}'))
    if rng.random() < .8: o.append(('r', num(rng, rng.choice([0, 5, 20, 60, 90, 180, 360, rng.uniform(1, 180)] if wide else [5, 20, 60, rng.uniform(5, 90)]))))
    if rng.random() < .5: o.append(('H', None))
    if rng.random() < .2: o.append(('E', None))
    if rng.random() < .3: o.append(('G', None))
    if rng.random() < .4: o.append(('t', rng.choice(['1', '2', '10', '60', '0', '-5', '600', '1.9'])))
    return o


def rand_mjd(rng):
    return round(rng.choice([58861.5, rng.uniform(57000, 62000), rng.uniform(58000, 60500)]), 5)


def catalogue_files(rng, mjd, total, pool=None, fail=True):
    """one file or a list of files; -> cat argument, files, lists"""
    if rng.random() < .55:
        nm = rng.choice(['cat.tle', 'a', 'sub/cat.tle', './x.txt', 'name with space.txt'])
        return nm, {nm: rand_catalogue(rng, mjd, total, pool)}, {}
    k = rng.randrange(1, 5)
    files, rows = {}, []
    for j in range(k):
        nm = rng.choice([f'f{j}.tle', f'f{j}.txt', f'sub/f{j}.txt', 'n' * 50 + f'{j}.tle'])
        r = rng.random()
        if rng.random() < .3: rows.append(rng.choice([b'# comment', b'', b'#f0.tle']))
        rows.append(nm.encode())
        if fail and r < .06: continue                     # missing
        files['./' + nm] = b'' if fail and r < .12 else rand_catalogue(rng, mjd, max(1, total // k), pool)
    eol = rng.choice([b'\n', b'\n', b'\r\n'])
    t = eol.join(rows) + (eol if rng.random() < .8 else b'')
    return '@all.lis', files, {'./all.lis': t}


def small_world(rng, mjd, n=None, nopos=.05):
    """few numbers and designators, and sets that come out in different ways: in the sky, long decayed, without a position"""
    nums = rng.sample(['00005', '00055', '05555', '55555', '12345', 'A0005', 'H4321', '00000'], 3)
    desigs = rng.sample(['98067A', '98067AB', '98067B', '19074B', '57001A', '56001A', '1998067A'], 2) + ['', rng.choice(['98067A', '', ''])]
    out, odd = [], rng.random() < .4
    for _ in range(n or rng.randrange(2, 7)):
        r = rng.random()
        num, de = rng.choice(nums), rng.choice(desigs)
        kw = lost = None
        if r < (nopos if odd else 0): lost = tle.high(num=num, desig=de, pos=(0, 0, 0), vel=(0, 0, 0), **dict(zip(('yy', 'day'), yyday(mjd - rng.choice([0, 1, .5])))))
        elif r < .5: kw = dict(zip(('yy', 'day'), yyday(mjd - rng.uniform(500, 700))), n=16.4, ecc=.0005, bstar=.09, incl=rng.uniform(1, 120))
        l1, l2 = lost if lost else tle.rand_tle(rng, 'leo', num=num, desig=de, **kw) if kw else make_set(rng, rand_body(rng, mjd), num, de)
        out += [rng.choice(['A', 'B', 'AB', 'SAT 1', 'NAMELESS']), l1, l2]
    t = '\n'.join(out) + '\n'
    return 'w.tle', {'./w.tle': t.encode()}, {}


def c03_cases(ctx, W):
    rng = ctx.rng
    for _ in range(ctx.budget(260, 2600)):
        mjd = rand_mjd(rng)
        total = rng.choice([1, 3, 6, 12, 20])
        pool = [tle.num5(rng.choice([rng.randrange(1, 99999), rng.randrange(1, 99999), rng.randrange(100000, 339999)])) for _ in range(max(2, total // 2))]
        if rng.random() < .2: pool += [pool[0][1:] + '0', '00' + pool[0][2:], pool[0][:4] + ' ']
        cat, files, lists = small_world(rng, mjd, rng.randrange(2, 10)) if rng.random() < .2 else catalogue_files(rng, mjd, total, pool)
        o = base_opts(rng, mjd) + region_opts(rng)
        if rng.random() < .6: o.append(('n', str(rng.choice([1, 1, 2, 3, 5, 0, 1000, -1]))))
        if rng.random() < .25: o.append(('I', None))
        if rng.random() < .15: o.append(('V', None))
        if rng.random() < .15: o.append(('a', f'{rng.uniform(0, 1500):.1f},{rng.uniform(0, 40000):.1f}'))
        if rng.random() < .25: o.append(('S', rng.choice(['STARLINK', 'SAT ', 'SAT 1', '', 'ISS', 'X', 'COSMOS 2251 DEB', 'starlink'])))
        rng.shuffle(o)
        W.add(o, cat, files, lists)


def big_cases(ctx, W):
    """catalogues longer than the table of numbers met"""
    rng = ctx.rng
    for n in ([11669] if not ctx.thorough else [11660, 11664, 11665, 11666, 11667, 11672, 13330, 13333, 13400, 26000, 60000]):
        bodies = [tle.tle(num=1, yy=20, day=13.5, incl=50 + k, node=10.0 * k, mo=100.0 + k, n=15 - k) for k in range(3)]
        nums = rng.sample(range(1, 340000), n)
        k = rng.randrange(n // 2)
        seq = nums + [nums[0], nums[k], nums[-1], nums[n - 2], nums[11666 % n], nums[11665 % n]]
        t = []
        for j, u in enumerate(seq):
            b = bodies[j % 3]
            t += [f'S{j % 7}'] + [tle.recheck(l[:2] + tle.num5(u) + l[7:]) for l in b]
        txt = ('\n'.join(t) + '\n').encode()
        W.add([('l', '44.5,11.3,23'), ('j', '58861.5'), ('r', '400'), ('n', '0'), ('I', None)], 'big.tle', {'big.tle': txt})
        half = txt.index(b'\nS3\n', len(txt) // 2) + 1
        W.add([('l', '44.5,11.3,23'), ('j', '58861.5'), ('r', '400'), ('n', str(n - 3)), ('I', None)], '@big.lis', {'./a.tle': txt[:half], './b.tle': txt[half:]}, {'./big.lis': b'a.tle\nb.tle\n'})


BANK = {}


def mc_bank(ctx, exe):
    """element sets for every outcome of the design model, at one site and epoch: found by trying"""
    if BANK: return BANK
    rng = random.Random('bank')
    d = tempfile.mkdtemp(prefix='bank_', dir=ctx.dir)
    cand = []
    for k in range(600):
        reg = rng.choice(['leo', 'gps'])
        cand.append(tle.rand_tle(rng, reg, num='00001', desig='98001A', yy=20, day=13.5, bstar=0, ndot=0, nddot=0, n=rng.uniform(2, 15)))
        with open(f'{d}/{k}', 'w') as fh: fh.write('X\n' + '\n'.join(cand[-1]) + '\n')
    args = ['-l', '44.5,11.3,23', '-j', '58861.9', '-p', '100,20', '-r', '60', '-H', '-G']
    near = tools.run_many([(exe, [str(k)] + args, d) for k in range(600)])
    far = tools.run_many([(exe, [str(k)] + args + ['-S', ''], d) for k in range(600)])
    for k in range(600):
        a, b = tools.document(near[k]), tools.document(far[k])
        if b['nsats'] != 1: continue
        s = b['sats'][0]
        alt, lit, inn = float(s['geo'][2]), s['data'][8] == '1', a['nsats'] == 1
        key = 'out' if not inn and lit and alt > 6000 else None if not inn else 'low' if alt < 6000 and lit else 'dark' if not lit and alt > 6000 else 'good' if lit and alt > 6000 else None
        if key and key not in BANK: BANK[key] = cand[k]
    l1, l2 = tle.tle(num='00001', desig='98001A', yy=19, day=13.5, ecc=0.0005, n=16.9, bstar=.3, incl=51.0)
    BANK['fail'] = (l1, l2)
    return BANK


def replay_cases(ctx, W, one_in, most):
    """runs of the design model SkyMapMC with real element sets"""
    text = ctx.design('SkyMapMC', cfg='SkyMapMC3.cfg' if ctx.thorough and ctx.prop == 'C02' else None, env={'EMIT': str(one_in), 'SEED': str(ctx.seed)})
    runs = sorted(set(printed(text, 'VPRUN')))
    runs = runs if len(runs) <= most else ctx.rng.sample(runs, most)
    bank = mc_bank(ctx, W.exe)
    ctx.notes.append(f'{len(runs)} runs of SkyMapMC replayed; outcomes available: {sorted(bank)}')
    n = 0
    for r in runs:
        q, rest = re.match(r'<<(.*?)>>, (.*)', r).groups()
        q = [x.strip() for x in q.split(',')]
        sets = re.findall(r'<<(\d+), (\d+), "(\w+)">>', rest)
        cut = int(rest.rsplit(',', 1)[1])
        if any(x[2] not in bank for x in sets): continue
        body, blank = [], ctx.rng.choice(['', '', 'Z', '2', '2Z'])   # which sets carry no designator
        for t, ln, res in sets:
            ch = chr(int(t))
            l1, l2 = bank[res]
            nm = 'XY' if ln == '2' else 'Z'
            body.append([nm] + [tle.recheck(l[:2] + '0000' + ch + l[7:9] + (f'{"" if ch in blank or nm in blank else "9800" + ch + nm:<8s}' + l[17:] if l[0] == '1' else l[9:])) for l in (l1, l2)])
        o = [('l', '44.5,11.3,23'), ('j', '58861.9'), ('p', '100,20'), ('r', '60'), ('H', None)]
        if q[0] == 'TRUE': o.append(('s', '1'))
        if q[1] == 'TRUE': o.append(('i', '1998-001'))
        if q[2] == 'TRUE': o.append(('S', 'X'))
        if q[3] == 'TRUE': o.append(('V', None))
        if q[4] == 'TRUE': o.append(('a', '6000,1e9'))
        o.append(('n', q[5]))
        fs = [''.join(l + '\n' for b in part for l in b).encode() for part in (body[:cut], body[cut:])]
        W.add(o, '@m.lis', {'./m1.tle': fs[0], './m2.tle': fs[1]}, {'./m.lis': b'm1.tle\nm2.tle\n'})
        n += 1
    return n


def run_c03(ctx):
    W = Walks(ctx)
    replay_cases(ctx, W, 150 if not ctx.thorough else 15, 500 if not ctx.thorough else 6000)
    W.check('runs of the design model SkyMapMC on real element sets')
    W = Walks(ctx)
    c03_cases(ctx, W)
    W.check('listings of random catalogues and lists')
    W = Walks(ctx)
    big_cases(ctx, W)
    W.check('catalogues longer than the table of numbers met')


def desig_in(l1):
    """designator of a line as the tool writes it (only used to make requests)"""
    t = l1[9:17].rstrip()
    if not t.strip(): return 'none'
    return ('19' if t[:5].strip().isdigit() and int(t[:5]) > 57000 else '20') + t[:2] + '-' + t[2:]


def lines_of(files):
    return [l.decode('latin-1') for b in files.values() for l in re.split(rb'\r?\n', b)]


def one_request(rng, files):
    """-s, -i or -S option for something in (or nearly in) the catalogue"""
    ls = lines_of(files)
    l1s = [l for l in ls if len(l) > 60 and l[:2] == '1 '] or ['1 12345U 98067A   ']
    names = [l for l in ls if l[:2] not in ('1 ', '2 ') and l.strip()] or ['X']
    l = rng.choice(l1s)
    k = rng.random()
    if k < .45:
        t = l[2:7].strip()
        try: n = tle.B34.index(t[0]) * 10000 + int(t[1:]) if t and t[0] in tle.B34 and not t[0].isdigit() else int(t)
        except ValueError: n = 5
        return ('s', rng.choice([str(n)] * 8 + [f'{n:05d}', f'{n:06d}', ' ' + str(n), '+' + str(n), str(n) + ' ', str(n + 1), str(n % 10000), str(n * 10), '0', '-1', t, '99999', '100000', '340000', f'{n:020d}', '-' + str(n)] + [str(n + m) for m in (2 ** 32, -2 ** 32, 2 ** 64, 10 ** 5, 10 ** 6, 2 ** 16, 2 ** 31, 5 * 2 ** 32, 10 ** 9, 10 ** 30)]))
    if k < .8:
        d = desig_in(l)
        return ('i', rng.choice([d, d, d, d[:8], d[:rng.randrange(1, len(d) + 1)], d + 'A', d.lower(), d[2:], '1998-067', '19', '2', '', 'none', '1998-067A ', ' ' + d, '2019-074B', '2057']))
    n = rng.choice(names)
    return ('S', rng.choice([n, n[:rng.randrange(1, len(n) + 1)], n[:23], n.rstrip(), n[:24] + 'Q', n.lower(), 'SAT', ' ', 'S', '"', '\\\\'[:1], n[1:]]))


def c02_cases(ctx, W, runs):
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        total = rng.choice([1, 3, 6, 12, 20])
        small = rng.random() < .4
        cat, files, lists = small_world(rng, mjd) if small else catalogue_files(rng, mjd, total, fail=rng.random() < .3)
        o = base_opts(rng, mjd)
        if rng.random() < .5: o += region_opts(rng)
        o.append(('i', rng.choice([desig_in(l) for l in lines_of(files) if l[:2] == '1 '])) if small and rng.random() < .6 else one_request(rng, files))
        if rng.random() < .12: o.append(one_request(rng, files))
        if rng.random() < .25: o.append(('n', str(rng.choice([1, 2, 5, 0]))))
        if rng.random() < .1: o.append(('I', None))
        if rng.random() < .2: o.append(('V', None))
        if rng.random() < .25: o.append(('a', f'{rng.uniform(0, 1500):.1f},{rng.uniform(0, 40000):.1f}'))
        if rng.random() < .2: o.append(('G', None))
        rng.shuffle(o)
        W.add(o, cat, files, lists)


def passed_over_cases(ctx, W, runs):
    """pieces of one launch, asked for together with a filter that takes the first ones away"""
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        n = rng.randrange(2, 9)
        rows = []
        for k, u in enumerate(rng.sample(range(1, 339999), n)):
            body = rand_body(rng, mjd)
            while body[0] in ('high', 'wild'): body = rand_body(rng, mjd)
            l1, l2 = make_set(rng, body, tle.num5(u), '98067' + rng.choice(['A', 'B', 'C', 'AA', chr(65 + k)]))
            rows.append(f'PIECE {k}\n{l1}\n{l2}\n')
        m = rng.choice([1, 1, 2])
        files = {f'p{q}.tle': (''.join(rows[q::m]) or 'X\n').encode() for q in range(m)}
        lists = {'l.lis': '\n'.join(files).encode() + b'\n'} if m > 1 else {}
        o = [x for x in base_opts(rng, mjd) if x[0] not in 'Va'] + [('i', rng.choice(['1998-067', '1998-067', '1998-06', '1998-067A', '1998-067B', '1']))]
        if rng.random() < .7: o.append(('V', None))
        if rng.random() < .2: o.append(('G', None))
        rng.shuffle(o)
        if ('V', None) not in o or rng.random() < .2: o.append(('a', f'{rng.choice([0, 400, 600, 2000])},{rng.choice([450, 800, 20000, 1e6])}'))
        W.add(o, '@l.lis' if m > 1 else 'p0.tle', files, lists)


def name_cases(ctx, W, runs):
    """names that begin with digits, that are padded as the catalogues on the net are, that begin alike"""
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        stem = rng.choice(['1KUNS-PF', '2010-X', '1', '2', '12', '25544', 'SAT 1', 'FLOCK 3P', 'X-', 'X' * 21, 'COSMOS 2251 DEB', '1998-067A', '-A', '0 ISS', '1.', '2,', '1\t'])
        width = rng.choice([0, 0, 20, 22, 23, 24, 24, 24, 25, 30])
        eol = rng.choice(['\n', '\r\n'])
        t, names = '', []
        for u in rng.sample(range(1, 339999), rng.randrange(2, 8)):
            body = rand_body(rng, mjd)
            while body[0] in ('high', 'wild'): body = rand_body(rng, mjd)
            l1, l2 = make_set(rng, body, tle.num5(u), '98067A')
            nm = rng.choice([stem, stem, stem + 'A', stem + ' B', stem + rng.choice(['', '-', ' ']) + str(rng.randrange(20)), stem.lower(), 'OTHER', stem[:-1] or 'Z', rng.choice(NAMES)]).ljust(width)
            if nm.strip() == '' or nm[:2] in ('1 ', '2 '): nm = 'N' + nm
            names.append(nm); t += eol.join([nm, l1, l2]) + eol
        o = base_opts(rng, mjd)
        k = rng.random()
        nm = rng.choice(names)
        o.append(('S', nm.rstrip() if k < .5 else nm[:rng.randrange(1, len(nm) + 1)] if k < .7 else stem if k < .9 else nm) if rng.random() < .8 else ('r', '400'))
        if rng.random() < .2: o.append(('n', str(rng.choice([1, 2, 0]))))
        rng.shuffle(o)
        W.add(o, 'n.tle', {'./n.tle': t.encode('latin-1')})


def run_c02(ctx):
    W = Walks(ctx)
    replay_cases(ctx, W, 150 if not ctx.thorough else 15, 500 if not ctx.thorough else 6000)
    W.check('runs of the design model SkyMapMC on real element sets')
    W = Walks(ctx)
    c02_cases(ctx, W, ctx.budget(300, 3000))
    passed_over_cases(ctx, W, ctx.budget(80, 800))
    name_cases(ctx, W, ctx.budget(80, 800))
    W.check('requests for one satellite and for names')
    import vis
    V = vis.Vis(ctx)
    vis.c02_cases(ctx, V, ctx.budget(250, 3000))
    V.check('requests to sat_visibility')


def c04_cases(ctx, W, runs):
    """filters with bounds next to the altitudes met"""
    rng = ctx.rng
    plans, looks = [], []
    for _ in range(runs):
        mjd = rand_mjd(rng)
        cat, files, lists = catalogue_files(rng, mjd, rng.choice([3, 6, 12, 20]), fail=False)
        o = base_opts(rng, mjd) + (region_opts(rng) if rng.random() < .6 else [('r', '400')])
        if rng.random() < .4: o = [x for x in o if x[0] not in 'Er'] + [('S', rng.choice(['', '', 'S', 'SAT ', 'STARLINK']))]
        plans.append((o, cat, files, lists))
        d = os.path.join(W.root, f'look{len(plans)}')
        for f, b in list(files.items()) + list(lists.items()):
            os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
            with open(os.path.join(d, f), 'wb') as fh: fh.write(b)
        looks.append((W.exe, [cat] + [x for l, v in o for x in (['-' + l] if v is None else ['-' + l, v])] + ['-G', '-n', '0'], d))
    for (o, cat, files, lists), r in zip(plans, tools.run_many(looks)):
        alts = [float(s['geo'][2]) for s in tools.document(r)['sats'] if len(s['geo']) == 4]
        alts = [a for a in alts if math.isfinite(a)] or [500.0, 36000.0]
        k = rng.random()
        if k < .75:
            a = rng.choice(alts) + rng.choice([.02, -.02, .5, -.5, .02, -.02])
            b = rng.choice([0, 1e9, rng.choice(alts) + rng.choice([.02, -.02]), a + rng.choice([0, .04, 100]), -7000])
            v = [a, b] if rng.random() < .5 else [b, a]
            o.append(('a', rng.choice(['{:.3f},{:.3f}', '{:.2f},{:.4f}', '{:.3f},{:.3e}', '{:.6e},{:.6e}']).format(*v)))
        elif k < .85: o.append(('a', rng.choice(['500', '0', '', ',1000', '500,', 'inf', '-inf,inf', '0,inf', 'x', '2e3,1e3', '-1,-2', '1000,1000'])))
        if k > .75 or rng.random() < .5: o.append(('V', None))
        if rng.random() < .6: o.append(('n', str(rng.choice([1, 2, 3, 5, 0, 1000]))))
        if rng.random() < .08: o.append(('I', None))
        if rng.random() < .1: o.append(one_request(rng, files))
        rng.shuffle(o)
        W.add(o, cat, files, lists, mode='plain')


def run_c04(ctx):
    W = Walks(ctx)
    c04_cases(ctx, W, ctx.budget(350, 3500))
    W.check('listings with and without filters')


# ------------------------------------------------------------------ what is reported, judged by SkyTrace
class Sights:
    def __init__(self, ctx, variant='plain'):
        self.ctx, self.exe = ctx, ctx.tool('sat_skymap', variant)
        self.S = {}
        self.root = tempfile.mkdtemp(prefix='sight_', dir=ctx.dir)

    def sets(self, mjd, n, regs=None):
        """n element sets with different numbers, and the file of them"""
        rng = self.ctx.rng
        out, nums = [], rng.sample(range(1, 339999), n)
        for u in nums:
            reg, kw = rand_body(rng, mjd)
            if regs and reg != 'high': reg = rng.choice(regs)
            out.append(make_set(rng, (reg, kw), tle.num5(u), '98067A'))
        f = f'c{len(os.listdir(self.root))}.tle'
        with open(os.path.join(self.root, f), 'w') as fh: fh.write(''.join(f'S{j}\n{a}\n{b}\n' for j, (a, b) in enumerate(out)))
        return out, f

    def look(self, f, opts):
        """what the tool says of every set (only used to choose interesting requests)"""
        return tools.run_many([(self.exe, spell(self.ctx.rng, [o for o in opts if o[0] != 'S'] + [('S', ''), ('G', None), ('n', '0')], f), self.root)])[0]

    def add(self, sets, f, opts):
        i = f's{len(self.S)}'
        self.S[i] = (sets, spell(self.ctx.rng, opts, f))
        return i

    def observe(self, ids):
        rs = tools.run_many([(self.exe, self.S[i][1], self.root) for i in ids])
        obs = []
        for i, r in zip(ids, rs):
            sets, args = self.S[i]
            o = dict(id=i, tool='sat_skymap', args=[bl(a) for a in args], sets=[{'l1': bl(a), 'l2': bl(b)} for a, b in sets], raw=[])
            o.update(tools.document(r))
            o.pop('tree')
            obs.append(o)
        return obs

    def check(self, what, **kw):
        return self.ctx.conform('SkyTrace', self.observe(list(self.S)), what, rerun=lambda i: self.observe([i]), **kw)


def deg_sep(a, b, hav):
    ra, de, rb, db = map(math.radians, (a[0], a[1], b[0], b[1]))
    if hav: return math.degrees(2 * math.asin(min(1, math.sqrt(math.sin((de - db) / 2) ** 2 + math.cos(de) * math.cos(db) * math.sin((ra - rb) / 2) ** 2))))
    d = (a[0] - b[0] + 180) % 360 - 180
    return math.hypot(d, a[1] - b[1])


def sight_cases(ctx, W, runs, n, kind):
    rng = ctx.rng
    plans, looks = [], []
    for _ in range(runs):
        mjd = rand_mjd(rng)
        base = base_opts(rng, mjd)
        sets, f = W.sets(mjd, n, rng.choice([None, None, ['geo', 'geoinc', 'gps'], ['leo', 'sso'], ['molniya', 'gto', 'halfday_e', 'ecc']]))
        base.append(('t', rng.choice(['1', '10', '60', '600', '1800', '0', '-300', '-1', '7'])) if rng.random() < .7 else ('H', None))
        hav = ('H', None) in base
        if not hav and rng.random() < .5: base.append(('H', None)); hav = True
        plans.append((base, sets, f, hav)); looks.append((W.exe, [f] + [x for l, v in base for x in (['-' + l] if v is None else ['-' + l, v])] + ['-S', '', '-G', '-n', '0', '-p', '0,0'], W.root))
    for (base, sets, f, hav), r in zip(plans, tools.run_many(looks)):
        d = tools.document(r)
        o = list(base)
        sats = [s for s in d['sats'] if len(s['data']) == 10]
        if kind == 'all' or not sats:
            if rng.random() < .6: o.append(('p', f'{num(rng, rng.uniform(0, 360))},{num(rng, rng.uniform(-90, 90))}'))
            if rng.random() < .3: o.append(('E', None))
            if rng.random() < .5: o.append(('G', None))
            o += [('S', '')] if rng.random() < .7 else [('r', '400')]
            if rng.random() < .05: o = [x for x in o if x[0] not in 'SrHE'] + [('r', '180'), ('H', None)]
        else:
            s = rng.choice(sats)
            x = [float(v) for v in s['data'][:4]]
            g = [float(v) for v in s['geo']]
            if rng.random() < .25:                         # ground search
                o.append(('E', None))
                site = [v for l, v in o if l == 'l'][0].split(',')
                c = (float(site[1]), float(site[0]))
                if rng.random() < .6:
                    c = ((g[1] + rng.choice([0, 1, -1, 10, -10, 180])) % 360, max(-90, min(90, g[0] + rng.choice([0, 5, -5]))))
                    o = [('l', f'{c[1]:.4f},{c[0] if c[0] < 180 or rng.random() < .5 else c[0] - 360:.4f},{site[2]}') if l == 'l' else (l, v) for l, v in o]
                seps = [deg_sep((float(t['geo'][1]), float(t['geo'][0])), c, hav) for t in sats]
            else:
                r = rng.random()
                if r < .2: c = None
                elif r < .7:
                    q = rng.choice([x[:2], x[2:]])
                    c = (round((q[0] + rng.choice([0, 1e-4, rng.uniform(-5, 5), rng.uniform(-40, 40)])) % 360, 4), round(max(-90, min(90, q[1] + rng.choice([0, rng.uniform(-5, 5), rng.uniform(-30, 30)]))), 4))
                elif r < .74: c = (rng.choice([0, 0, 360]), 0)
                elif r < .85: c = (rng.choice([0, 360, .01, 359.99, 1, 359]), round(rng.uniform(-60, 60), 3))
                else: c = (round(rng.uniform(0, 360), 3), rng.choice([90, -90, 89.99, 85, -88]))
                if c: o.append(('p', f'{c[0]:.4f},{c[1]:.4f}' if c[1] else f'{c[0]},0'))
                else:
                    t = d['leaf'].get('input_params.region.lmst', {}).get('t', '0')
                    c = (float(t) * 15, float([v for l, v in o if l == 'l'][0].split(',')[0]))
                seps = [min(deg_sep([float(v) for v in t['data'][k:k + 2]], c, hav) for k in (0, 2)) for t in sats]
            rad = rng.choice(seps) + rng.choice([3e-4, -3e-4, 1e-3, -1e-3, .02, -.02, .5]) if rng.random() < .75 else rng.choice([5, 20, 60, 90, 150])
            o.append(('r', f'{max(0, rad):.5f}'))
            o.append(('n', '0'))
        rng.shuffle(o)
        W.add(sets, f, o)


def at_anomaly(l1, l2, ma, number):
    """the same orbit at another mean anomaly, under another number"""
    return tle.recheck(l1[:2] + number + l1[7:]), tle.recheck(l2[:2] + number + l2[7:43] + f'{ma % 360:8.4f}' + l2[51:])


def jump(f):
    """does the angle turn over between two neighbouring satellites?"""
    return lambda a, b: abs(float(f(a)) - float(f(b))) > 300


def lit(s): return s['data'][8]


SEAMS = {'ra': jump(lambda s: s['data'][0]), 'ra1': jump(lambda s: s['data'][2]), 'pa': jump(lambda s: s['data'][6]), 'lon': jump(lambda s: s['geo'][1]),
         'theta': jump(lambda s: s['geo'][3]), 'pixel': lambda a, b: a['data'][9] != b['data'][9]}


def edge_sets(ctx, exe, runs, flip, near=7):
    """element sets on both sides of an edge, where flip tells two neighbours on different sides: (mjd, deltaT, site, sets)"""
    rng = ctx.rng
    root = tempfile.mkdtemp(prefix='edge_', dir=ctx.dir)
    T = []
    for k in range(runs):
        mjd = rand_mjd(rng)
        reg, kw = rand_body(rng, mjd)
        while reg in ('high', 'decay', 'wild'): reg, kw = rand_body(rng, mjd)
        lat, lon, ht = rand_site(rng)
        T.append(dict(mjd=mjd, site=f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}', body=make_set(rng, (reg, kw), '12345', '98067A'), lo=0.0, step=1.8, n=200, dt=rng.choice(['0', '1', '1', '-1'])))
    for stage in range(3):
        jobs = []
        for k, t in enumerate(T):
            with open(f'{root}/{k}', 'w') as fh:
                for j in range(t['n']): fh.write('\n'.join(('S', *at_anomaly(*t['body'], t['lo'] + j * t['step'], f'{j + 1:05d}'))) + '\n')
            jobs.append((exe, [str(k), '-G', '-l' + t['site'], f'-j{t["mjd"]:.5f}', '-t' + t['dt'], '-S', '', '-n0'], root))
        kept = []
        for t, r in zip(T, tools.run_many(jobs)):
            at = {int(s['norad']): s for s in tools.document(r)['sats'] if len(s['data']) == 10 and len(s['geo']) == 4}
            flips = [j for j in range(1, t['n']) if j in at and j + 1 in at and flip(at[j], at[j + 1])]
            if not flips: continue
            t['lo'] += (rng.choice(flips) - 1) * t['step']
            t['n'], t['step'] = (201, t['step'] / 200) if stage == 0 else (91, .0001)
            kept.append(t)
        T = kept
    for t in T:
        offs = [x * m for x in (.0005, .002, .008, .02, .04, .1, .3)[:near] for m in (1, -1)]
        nums = rng.sample(range(1, 99999), len(offs))
        yield t['mjd'], t['dt'], t['site'], [at_anomaly(*t['body'], t['lo'] + o * rng.uniform(.6, 1.4), tle.num5(u)) for o, u in zip(offs, nums)]


def shadow_sets(ctx, exe, runs, near=7):
    yield from edge_sets(ctx, exe, runs, lambda a, b: lit(a) != lit(b), near)


def shadow_cases(ctx, W, runs):
    edge_cases(ctx, W, lambda: shadow_sets(ctx, W.exe, runs))


def seam_cases(ctx, W, runs):
    """satellites on both sides of where an angle turns over, and of the border of a pixel"""
    for name, flip in SEAMS.items():
        edge_cases(ctx, W, lambda: edge_sets(ctx, W.exe, runs, flip, near=4))


def edge_cases(ctx, W, gen):
    rng = ctx.rng
    for mjd, dt, site, sets in gen():
        f = f'e{len(os.listdir(W.root))}.tle'
        with open(os.path.join(W.root, f), 'w') as fh: fh.write(''.join(f'S{j}\n{a}\n{b}\n' for j, (a, b) in enumerate(sets)))
        o = [('l', site), ('j', f'{mjd:.5f}'), ('t', dt), ('S', '')] + ([('G', None)] if rng.random() < .6 else [])
        rng.shuffle(o)
        W.add(sets, f, o)


def run_c01(ctx):
    W = Sights(ctx)
    sight_cases(ctx, W, ctx.budget(400, 4000), 14, 'edge')
    W.check('region searches with a radius next to the separation of a satellite')


def run_c14(ctx):
    W = Sights(ctx)
    sight_cases(ctx, W, ctx.budget(400, 4000), 14, 'all')
    shadow_cases(ctx, W, ctx.budget(60, 900))
    seam_cases(ctx, W, ctx.budget(10, 120))
    W.check('records of all satellites of catalogues')


run_c15 = run_c14

