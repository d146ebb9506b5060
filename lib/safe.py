"""C21: hostile command lines and catalogues, in builds that show memory errors and indeterminate data."""
from vp import *
import tle, tools, sky, docs, vis
from sky import rand_mjd, rand_site, num, base_opts, region_opts, spell

LENGTHS = [8, 9, 10, 14, 15, 16, 20, 22, 23, 24, 25, 30, 31, 32, 33, 62, 63, 64, 65, 66, 80, 98, 99, 100, 101, 127, 128, 129, 130, 198, 199, 200, 201, 254, 255, 256, 257, 300, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 20000, 100000]
NUMBERS = ['nan', 'inf', '-inf', '-nan', '1e999', '-1e999', '1e308', '0x1p3', '1e-400', '9' * 400, '-' + '9' * 60, '-', '+', '.', ',', ',,,,,,', ' ', '1e', '--1', '2147483648', '-2147483649', '4294967296', '99999999999999999999', '1e10', '1e18', '-1e18', '1,' * 300, '0,0,0,0,0,0', '1e5,1e5,1e5', 'infinity,infinity', '0', '-0', '1e-5', 'x' * 200, '90,180', '90,360,1e9', '-90,-180', '1e300,1e300,1e300']
DATES = ['9999-12-31T23:59:59', '0000-00-00T00:00:00', '-4712-01-01T12:00:00', '99999-01-01T00:00:00', '2020-13-45T99:99:99', '2020-01-01', '2147483648-01-01T00:00:00', '2020-02-30T24:00:60', '2020-01-13T12:00:00' + '0' * 300, 'T', '-', '--T::', '2020-01-13T', '1e5-01-01T00:00:00', '2020-01-13T12:00:nan']


def word(rng, n):
    return ''.join(rng.choice('abcXYZ019 ._-"\\%\xe9\t') for _ in range(min(n, 40))).replace('\0', '') + rng.choice(['x', '9', '/', '%s', '1', ' ', 'a/', '../', '\xff', ','])[:1] * max(0, n - 40) if rng.random() < .7 else rng.choice('xA9./% ') * n


def noisy_set(rng, mjd):
    """element set with something odd in some columns, checksums repaired or not"""
    reg, kw = sky.rand_body(rng, mjd)
    if rng.random() < .5: reg, kw = 'wild', {k: kw[k] for k in ('yy', 'day')}
    l1, l2 = sky.make_set(rng, (reg, kw), tle.num5(rng.randrange(1, 339999)), rng.choice(['98067A', '', '57001B', '22999ZZZ']))
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        l, lo, hi = rng.choice([(2, 8, 16), (2, 17, 25), (2, 26, 33), (2, 34, 42), (2, 43, 51), (2, 52, 63), (2, 63, 68), (1, 18, 32), (1, 33, 43), (1, 44, 52), (1, 53, 61), (1, 62, 63), (1, 2, 7), (1, 9, 17), (1, 64, 68), (2, 2, 7)])
        w = hi - lo
        v = rng.choice(['0' * w, '9' * w, ' ' * w, '.' * w, '-' * w, '+' * w, '-' + '9' * (w - 1), ''.join(rng.choice('0123456789') for _ in range(w)), ''.join(rng.choice('0123456789 .-+eE') for _ in range(w)), 'nan'.ljust(w)[:w], 'inf'.ljust(w)[:w], '1e9'.rjust(w)[:w], ''.join(chr(rng.randrange(1, 256)) for _ in range(w)).replace('\n', 'x')])
        s = (l1, l2)[l - 1]
        s = s[:lo] + v + s[hi:]
        if l == 1: l1 = s
        else: l2 = s
    if rng.random() < .85:
        try: l1, l2 = l1[:68] + tle.ck(l1[:68]), l2[:68] + tle.ck(l2[:68])
        except Exception: pass
    return l1, l2


def noisy_file(rng, mjd):
    r = rng.random()
    eol = rng.choice(['\n'] * 6 + ['\r\n', '\r', '\n\n', '\0\n'])
    out = ''
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8])):
        l1, l2 = noisy_set(rng, mjd)
        n = rng.random()
        name = 'SAT %d' % rng.randrange(99) if n < .5 else word(rng, rng.choice(LENGTHS[:40])).replace('\n', ' ') if n < .85 else ''
        out += (name + eol if rng.random() < .9 else '') + l1 + rng.choice(['', '', '', ' ' * 40, 'x' * 31, 'x' * 30, ' ' * 29]) + eol + l2 + rng.choice(['', '', '', ' ' * 31]) + eol
    b = out.encode('latin-1', 'replace')
    if r < .55: return b
    if r < .65: return b[:rng.randrange(len(b) + 1)]
    if r < .72: return bytes(rng.randrange(256) for _ in range(rng.choice([1, 68, 99, 100, 300, 5000])))
    if r < .78: return b.replace(b'\n', b'')
    if r < .82: return b'\n' * rng.choice([1, 100, 50000])
    if r < .86: return b + b'#' * rng.choice([98, 99, 100, 200, 300000]) + b'\n' + b
    if r < .88: return (b or b'x\n') * (200000 // (len(b) + 1))
    if r < .90: return b'1' * rng.choice([1, 68, 99, 100, 200, 100000]) + b'\n' + b'2' * rng.choice([1, 68, 99, 100, 200]) + b'\n'
    bb = bytearray(b or b'x')
    for _ in range(rng.choice([1, 3, 10, 50])): bb[rng.randrange(len(bb))] = rng.choice([0, 10, 13, 32, 49, 50, 255, rng.randrange(256)])
    return bytes(bb)


class Safe:
    """scenarios: tool, arguments, files; run in every build"""
    BUILDS = ['plain', 'again', 'zero', 'pattern', 'asan', 'msan']

    def __init__(self, ctx):
        self.ctx, self.S = ctx, {}
        self.root = tempfile.mkdtemp(prefix='safe_', dir=ctx.dir)
        with ThreadPoolExecutor(3) as ex:
            ctx.src()
            list(ex.map(ctx.build, ['plain', 'zero', 'pattern', 'asan', 'msan']))

    def add(self, tool, args, files):
        i = f'h{len(self.S)}'
        args = [a.replace('\0', '') if isinstance(a, str) else a for a in args]
        if tool == 'sat_visibility' and vis.Vis.steps(args) > 2e5: args = ['-q'] + args
        self.S[i] = (tool, args, {f: b for f, b in files.items() if f.strip('/.') and '\0' not in f and all(0 < len(x) < 250 for x in f.split('/'))})

    def one(self, i, build):
        tool, args, _ = self.S[i]
        exe = self.ctx.tool(tool, 'plain' if build == 'again' else build)
        env = dict(ENV, ASAN_OPTIONS='detect_leaks=0:exitcode=99:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', MSAN_OPTIONS='exitcode=99')
        if build == 'again': env.update(MALLOC_PERTURB_='165', TZ='Asia/Tokyo', LC_ALL='C.UTF-8', LANG='de_DE.UTF-8', HOME='/nonexistent', PAD='x' * 3333)
        try:
            r = subprocess.run([tool] + [a if isinstance(a, bytes) else a.encode('latin-1') for a in args], executable=exe, cwd=os.path.join(self.root, i), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=env)
        except subprocess.TimeoutExpired: return build, -1, 'no end within 60 s', b''
        except OSError as e: return build, 0, '', b'not run: ' + str(e.errno).encode()     # too long for the system
        crash = ''
        m = tools.SAN.search(r.stderr)
        if m: crash = re.sub(r'==\d+==|0x[0-9a-f]+', '', m.group(1).decode('latin-1'))[:160].replace('"', "'")
        elif r.returncode < 0: crash = f'signal {-r.returncode}'
        return build, r.returncode, crash, r.stdout

    def observe(self, ids):
        for i in ids:
            d = os.path.join(self.root, i)
            os.makedirs(d, exist_ok=True)
            for f, b in self.S[i][2].items():
                p = os.path.normpath(os.path.join(d.encode(), f.encode('latin-1')))
                if not p.startswith(d.encode() + b'/'): continue
                try:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if b is None: os.makedirs(p, exist_ok=True)
                    elif not os.path.exists(p):
                        with open(p, 'wb') as fh: fh.write(b)
                except OSError: pass
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: self.one(*j), [(i, b) for i in ids for b in self.BUILDS]))
        obs = []
        n = len(self.BUILDS)
        for k, i in enumerate(ids):
            r = rs[k * n:(k + 1) * n]
            outs = {}
            for x in r: outs.setdefault(x[3], len(outs) + 1)
            d = tools.document(dict(rc=r[0][1], crash='', out=r[0][3]))
            vals = sorted({t for s in d['sats'] for t in s['data'] + s['geo'] if tools.NUM.fullmatch(t)} | {t['t'] for p, t in d['leaf'].items() if p.startswith('satellite.') and t['k'] == 'n'})
            odd = [m.group(0) for m in re.finditer(rb'(?<![\w"])-?(nan|inf)\b', r[0][3].split(b'"satellite', 1)[1].split(b'"run_command"', 1)[0])] if b'"satellite' in r[0][3] and d['kind'] != 'json' else []
            obs.append(dict(id=i, args=[a if len(a) < 300 else a[:300] + '...' for a in (x if isinstance(x, str) else x.decode('latin-1') for x in self.S[i][1])], tool=self.S[i][0], files={f: hx(b)[:6000] for f, b in self.S[i][2].items() if b is not None},
                            runs=[dict(build=b, crash=c, rc=rc, out=outs[o]) for b, rc, c, o in r], vals=vals + ['nan' for _ in odd[:1]]))
        return obs

    def check(self, what):
        return self.ctx.conform('SafeTrace', self.observe(list(self.S)), what, rerun=lambda i: self.observe([i]))


def bad_args(rng, tool, mjd):
    """arguments of every length and value"""
    o = base_opts(rng, mjd) if tool == 'sat_skymap' else vis.vis_opts(rng, mjd)
    if rng.random() < .5: o += region_opts(rng) if tool == 'sat_skymap' else [('s', '5')]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        l = rng.choice('adDijlnprsSt' if tool == 'sat_skymap' else 'adDijlrst')
        x = rng.random()
        v = word(rng, rng.choice(LENGTHS)) if x < .4 else rng.choice(DATES + [f'{a},{b}' for a, b in [rng.sample(DATES, 2)]]) if l == 'd' and x < .8 else rng.choice(NUMBERS)
        o = [q for q in o if q[0] != l or rng.random() < .2] + [(l, v)]
    rng.shuffle(o)
    return o


def files_of(rng, mjd):
    r = rng.random()
    if r < .45: return 'c.tle', {'c.tle': noisy_file(rng, mjd)}
    if r < .6:
        nm = word(rng, rng.choice(LENGTHS)).replace('/', '_').replace('@', 'a')
        return nm, {nm: noisy_file(rng, mjd)}
    if r < .7:
        nm = '/'.join('d' * rng.choice([1, 10, 100, 200]) for _ in range(rng.choice([1, 2, 5, 20]))) + '/c.tle'
        return nm, {nm: noisy_file(rng, mjd)} if len(nm) < 2000 else {}
    k = rng.choice([1, 2, 5, 30])
    names = [rng.choice(['f%d.tle' % j, word(rng, rng.choice(LENGTHS[:30])).replace('/', '_'), 's/' * rng.randrange(1, 40) + 'f%d' % j]) for j in range(k)]
    rows = [x + rng.choice(['', '', '', '\r', ' ', '\t', '\0x']) for x in names]
    for _ in range(rng.choice([0, 0, 1, 3])): rows.insert(rng.randrange(len(rows) + 1), rng.choice(['', '#', '# ' + 'c' * 200, '\0', '\xff' * 70, ' ' * 64, 'x' * 5000]))
    if rng.random() < .05: rows = rows * 500
    return '@' + rng.choice(['l.lis', 'l' * rng.choice([63, 64, 120, 200]) + '.lis']), {**{n: noisy_file(rng, mjd) for n in names if rng.random() < .9}, 'l.lis': '\n'.join(rows).encode('latin-1') + rng.choice([b'\n', b''])}


def hostile(ctx, H, runs):
    rng = ctx.rng
    for _ in range(runs):
        tool = rng.choice(['sat_skymap', 'sat_skymap', 'sat_visibility'])
        mjd = rand_mjd(rng)
        cat, files = files_of(rng, mjd)
        if cat.startswith('@') and cat != '@l.lis' and 'l.lis' in files: files[cat[1:]] = files.pop('l.lis')
        r = rng.random()
        if r < .35: o = bad_args(rng, tool, mjd)
        elif tool == 'sat_skymap':
            o = base_opts(rng, mjd) + (region_opts(rng) if rng.random() < .4 else [('S', '')] if rng.random() < .6 else [('r', '400')])
            if rng.random() < .3: o.append(('G', None))
            if rng.random() < .2: o.append(('V', None))
            if rng.random() < .2: o.append(('a', '0,1e9'))
        else:
            o = vis.vis_opts(rng, mjd)
            o.append(('r', '180'))
            nums = [m.group(1).decode() for b in files.values() if b for m in re.finditer(rb'(?m)^1 (\d{5})', b)]
            o.append(('s', str(int(rng.choice(nums)))) if nums and rng.random() < .8 else ('i', rng.choice(['1998-067A', '1', '', '2022-999ZZZ'])))
        a = [cat] + [x for l, v in o for x in (['-' + l] if v is None else ['-' + l + v] if v and rng.random() < .7 else ['-' + l, v])]
        if rng.random() < .3: a = a[1:] + a[:1]
        if rng.random() < .1: a = a[:rng.randrange(len(a) + 1)]
        if rng.random() < .1: a.insert(rng.randrange(len(a) + 1), rng.choice(['', '-', '--', '-' + word(rng, rng.choice(LENGTHS)), word(rng, rng.choice(LENGTHS)), '-h', '-T']))
        if rng.random() < .03: a += ['-S', 'x' * 1000] * rng.choice([1, 50, 900])
        H.add(tool, a, files)
    # what the other generators make of hostile files and options
    for gen, cls, tool in ((docs.c05_cases, sky.Walks, 'sat_skymap'), (docs.c06_cases, sky.Walks, 'sat_skymap'), (vis.c05_cases, vis.Vis, 'sat_visibility'), (vis.c06_cases, vis.Vis, 'sat_visibility')):
        W = cls(ctx)
        gen(ctx, W, runs // 6)
        for s in W.S.values(): H.add(tool, s['args'], {**s['files'], **s['lists']})


def lost_cases(ctx, runs):
    """sets whose position cannot be computed, among others: SkyTrace and VisTrace know which"""
    rng = ctx.rng
    W = sky.Sights(ctx)
    V = vis.Vis(ctx)
    for _ in range(runs):
        mjd = rand_mjd(rng)
        yy, day = sky.yyday(mjd + rng.choice([0, rng.uniform(-3, 3), rng.uniform(-300, 300)]))
        sets = []
        for u in rng.sample(range(1, 99999), 6):
            kw = dict(yy=yy, day=day, bstar=rng.choice([0, .01, .3, -.3]))
            reg = rng.choice(['wild', 'wild', 'decay', 'leo', 'low'])
            if rng.random() < .3: kw.update(n=rng.choice([16.5, 17.0, 17.5, 18, 20, 30, 99.9]), ecc=rng.choice([0, .01, .2, .9, .999, .9999]))
            sets.append(tle.rand_tle(rng, reg, num=tle.num5(u), desig='98067A', **kw))
        f = f'c{len(os.listdir(W.root))}.tle'
        text = ''.join(f'S{j}\n{a}\n{b}\n' for j, (a, b) in enumerate(sets))
        with open(os.path.join(W.root, f), 'w') as fh: fh.write(text)
        W.add(sets, f, base_opts(rng, mjd) + [('S', ''), ('G', None)] if rng.random() < .5 else base_opts(rng, mjd) + [('r', '400'), ('n', '0')])
        for l1, l2 in rng.sample(sets, 2):
            lat, lon, ht = rand_site(rng)
            V.add([('l', f'{lat:.3f},{lon:.3f},{ht:.1f}'), vis.when_opts(rng, mjd), ('r', '180'), ('N', None), ('s', str(int(l1[2:7]))), ('t', rng.choice(['1', '10', '60']))], 'c.tle', {'c.tle': text.encode()})
    W.check('sets without a position in catalogues')
    V.check('sets without a position, asked for by number')


def crowd_cases(ctx, H, runs):
    """so many satellites, so many repeats, so many files that every table has to grow, several times"""
    rng = ctx.rng
    for k in range(runs):
        mjd = rand_mjd(rng)
        n = rng.choice([11665, 11668, 13335, 15001, 16670, rng.randrange(11000, 30000), rng.randrange(13400, 22000)]) if k else rng.randrange(15100, 22000)
        lines = [sky.make_set(rng, sky.rand_body(rng, mjd), '00005', '98067A') for _ in range(20)]
        blanks = k % 2 == 0
        us = rng.sample(range(1, 339999), n)
        if blanks: us = sorted(set(us[:n // 2] + list(range(1, 9000))))
        if rng.random() < .5: us.sort()
        rows = []
        for j, u in enumerate(us):
            l1, l2 = lines[j % 20]
            w = tle.num5(u)
            if blanks and u < 100000: w = str(int(w)).rjust(5)
            l1, l2 = l1[:2] + w + l1[7:68], l2[:2] + w + l2[7:68]
            rows.append(f'X\n{l1}{tle.ck(l1)}\n{l2}{tle.ck(l2)}\n')
        m = rng.choice([1, 1, 3])
        fs = {f'p{q}.tle': ''.join(rows[q::m]).encode() for q in range(m)}
        fs['l.lis'] = '\n'.join(fs).encode() + b'\n'
        cat = '@l.lis' if m > 1 else 'p0.tle'
        H.add('sat_skymap', [cat, '-l45,9,100', f'-j{mjd:.6f}', '-p0,0', rng.choice(['-r400', '-SX']), rng.choice(['-n0', '-n0', '-n50000']), rng.choice(['-I', '-I', '-H'])], fs)


def run_c21(ctx):
    ctx.design('ReadMC', cfg='ReadMC7.cfg' if ctx.thorough else None)
    H = Safe(ctx)
    hostile(ctx, H, ctx.budget(240, 5000))
    crowd_cases(ctx, H, ctx.budget(2, 25))
    H.check('hostile command lines and files in six builds')
    lost_cases(ctx, ctx.budget(50, 800))
