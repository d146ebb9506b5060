"""C05 (one document, truthful status) and C06 (options, echoes)."""
from vp import *
import tle, tools, sky
from sky import Walks, spell, num, rand_site, base_opts, region_opts, rand_mjd, rand_catalogue, catalogue_files, one_request

ODD = [b'NAME "QUOTED"', b'BACK\\SLASH\\', b'\\', b'"', b'CTRL\x01\x02\x1f', b'TAB\tTAB', b'caf\xc3\xa9', b'caf\xe9', b'\xff\xfe', b'A' * 22 + b'\xc3\xa9', b'A' * 21 + b'\xe2\x82\xac', b'\xf0\x9f\x9b\xb0', b'\x7f', b"it's </b> & co", b'%s %n %d %5$s',
       b'\\u0041', b'\\n', b'{"a": 1}', b'[1, 2]', b'x' * 60, b'{', b'\x1b[31m', b' ', b'nul\x00l', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b',']
BADOPT = ['-l91,0', '-l-90.1,5', '-l90.00001,0', '-lnan,0', '-l0,inf', '-l0,0,nan', '-p-1,0', '-p360.5,0', '-p0,90.5', '-p0,-91', '-pnan,0', '-rnan', '-rinf', '-jnan', '-jinf', '-j1e30', '-j-1e30', '-x', '-Z', '-', '--', '--help', '-hh', '-Gx', '-E1', '-V0',
          '-HG', '-I ', '-T/x', '-5', '-30', '-a', '-d', '-l', '-n', '-t', '-S', '-i', '-a1,nan', '-h', '-N', '-q', '-L', '-\xff', '-"', '-\\\\'[:2], '-\x01']
PLACES = ['cat.tle', 'a', 'sub/cat.tle', './x y.txt', 'q"uote.tle', 'b\\\\s.tle'[:2] + 's.tle', 'c\xc3\xa9.tle', 'l\xe9.tle', 'tab\t.tle', 'ctl\x01.tle', '%s%n.tle', 'x' * 60 + '.tle', "it's.tle"]


EDGES = [bytes.fromhex(h) for h in ('c1bf c280 c27f c2c0 dfbf e09fbf e08080 e0a080 e0a07f ecbfbf ed9fbf eda080 edbfbf ee8080 efbfbf f08fbfbf f0808080 f0908080 f090807f '
                                   'f3bfbfbf f48fbfbf f4908080 f5808080 f7bfbfbf 80 bf fe ff c2 e0a0 f09080 efbf').split()]


def odd_text(rng):
    """bytes next to every boundary of what UTF-8 and JSON allow"""
    out = b'' if rng.random() < .6 else b'x' * rng.randrange(15, 24)
    for _ in range(rng.randrange(1, 5)):
        r = rng.random()
        if r < .3: out += rng.choice(EDGES)
        elif r < .6: out += bytes([rng.choice([0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe0, 0xe1, 0xec, 0xed, 0xed, 0xee, 0xef, 0xf0, 0xf0, 0xf1, 0xf3, 0xf4, 0xf4, 0xf5, 0xff])] + [rng.choice([0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0x80, 0xbf, 0x7f, 0xc0, 0x41]) for _ in range(rng.randrange(4))])
        elif r < .8: out += bytes([rng.choice([c for c in range(1, 33) if c != 10])])
        else: out += rng.choice([b'"', b'\\', b'/', b'\x7f', b'a', b'"\\'])
    return out


def odd_name(rng):
    return odd_text(rng) if rng.random() < .5 else rng.choice(ODD)


def odd_catalogue(rng, mjd, n):
    b = rand_catalogue(rng, mjd, n)
    ls = b.split(b'\n')
    for k in range(len(ls)):
        if ls[k][:2] not in (b'1 ', b'2 ') and rng.random() < .7: ls[k] = odd_name(rng)
        elif rng.random() < .01: ls[k] = ls[k][:rng.randrange(3, 60)] + odd_name(rng)
    return b'\n'.join(ls)


def odd_files(rng, mjd, total):
    """catalogue argument, files and lists, with everything that can be wrong with them"""
    r = rng.random()
    if r < .3:
        nm = rng.choice(PLACES)
        return nm, {nm if '/' in nm else './' + nm: odd_catalogue(rng, mjd, total)}, {}
    if r < .38:
        nm = rng.choice(PLACES)
        return nm, {}, {}
    if r < .42: return rng.choice([('cat.tle', {'./cat.tle': b''}, {}), ('dir', {'./dir': None}, {}), ('', {}, {}), ('.', {}, {}), ('@', {}, {}), ('@none.lis', {}, {}), ('@empty.lis', {}, {'./empty.lis': b''}), ('@dir.lis', {}, {'./dir.lis': None}), ('sub/', {}, {})])
    k = rng.randrange(1, 5)
    wrong = rng.choice([None] + list(range(k)))
    how = rng.choice(['missing', 'empty', 'dir', 'long', 'slash'])
    files, rows = {}, []
    for j in range(k):
        nm = rng.choice(['f%d.tle' % j, 'sub/f%d.tle' % j, 'sp ace%d.tle' % j, 'q"%d.tle' % j, 'e\xc3\xa9%d.tle' % j])
        if rng.random() < .2: rows.append(rng.choice([b'# f9.tle', b'#', b'', b'\t', b'\x01']))
        if j == wrong and how == 'long': nm = 'n' * rng.choice([62, 63, 64, 100, 130]) + str(j)
        if j == wrong and how == 'slash': nm = rng.choice(['/', '/x', '.', 'f', 'sub'])
        rows.append(nm.encode('latin-1') + rng.choice([b'', b'', b'\r']))
        if j == wrong and how in ('missing', 'slash'): continue
        if j == wrong and how == 'empty': files['./' + nm] = b''
        elif j == wrong and how == 'dir': files['./' + nm] = None
        else: files['./' + nm] = odd_catalogue(rng, mjd, max(1, total // k))
    files = {f: b for f, b in files.items() if all(len(x.encode('latin-1')) < 250 for x in f.split('/'))}
    ls = rng.choice(['all.lis', 'l i s', 'x.lis'])
    return '@' + ls, files, {'./' + ls: b'\n'.join(rows) + rng.choice([b'\n', b''])}


BARE = ['-' + c for c in 'adDijlnprsSt']


def args_with(rng, opts, cat, extra):
    """-> arguments, and whether some no longer are what OPTS says"""
    a = spell(rng, opts, cat)
    mixed = False
    for e in extra:
        k = rng.randrange(1, len(a)) if len(a) > 1 else 0
        mixed = mixed or e in BARE or (k > 0 and a[k - 1] in BARE)
        a = a[:k] + [e] + a[k:]
    return a, mixed


def c05_cases(ctx, W, runs):
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        cat, files, lists = sky.small_world(rng, mjd, nopos=.3) if rng.random() < .2 else odd_files(rng, mjd, rng.choice([1, 2, 4, 6]))
        o = base_opts(rng, mjd)
        r = rng.random()
        if r < .3: o += region_opts(rng)
        elif r < .6: o += [('S', rng.choice(['', '', 'NAME', '"', '\\\\'[:1], '\xc3', '\xff']))]
        elif r < .75 and any(files.values()): o.append(tuple(x.replace('\0', '') for x in one_request(rng, {f: b for f, b in files.items() if b})))
        else: o += [('r', '400')]
        if rng.random() < .3: o.append(('n', rng.choice(['1', '2', '0', '3'])))
        if rng.random() < .15: o.append(('I', None))
        if rng.random() < .2: o.append(('G', None))
        if rng.random() < .1: o = [x for x in o if x[0] != 'l']
        if rng.random() < .1: o.append(('d', rng.choice(['2020-01-13', 'x', '"', '2020-01-13T12:00:00Z', '\xff\xff', '9999-99-99T99:99:99', ''])))
        if rng.random() < .1: o.append((rng.choice('DT'), rng.choice(['/nowhere', 'a"b', '\xe9', 'sub', '.', odd_text(rng).decode('latin-1')])))
        o = [(l, None if l == 'T' else v) for l, v in o]
        rng.shuffle(o)
        extra = []
        if rng.random() < .2: extra.append(rng.choice(BADOPT))
        if rng.random() < .2: extra.append(rng.choice(['', 'extra', '"', '\xe9\xe9', 'x\ny', '{"'] + [odd_text(rng).decode('latin-1')] * 4))
        a, mixed = args_with(rng, o, cat, extra)
        if rng.random() < .02: a, mixed = a[:rng.randrange(len(a) + 1)], True
        W.add(o, cat, files, lists, args=a, raw=True, mode='none' if mixed else 'same')
    W.add([], '', {}, {}, args=[], raw=True)
    W.add([], '', {}, {}, args=['-h'], raw=True)
    W.add([], '', {}, {}, args=['c.tle'], raw=True)


def run_c05(ctx):
    ctx.design('JsonMC', cfg='JsonMC6.cfg' if ctx.thorough else None)
    W = Walks(ctx)
    c05_cases(ctx, W, ctx.budget(350, 4000))
    W.check('documents of all kinds of runs of sat_skymap')
    import vis
    V = vis.Vis(ctx)
    vis.c05_cases(ctx, V, ctx.budget(300, 4000))
    V.check('documents of all kinds of runs of sat_visibility')


# ------------------------------------------------------------------ C06
def c06_cases(ctx, W, runs):
    rng = ctx.rng
    for _ in range(runs):
        mjd = rand_mjd(rng)
        files = {nm: rand_catalogue(rng, mjd, rng.choice([1, 3, 5]), plain=True) for nm in ('./cat.tle', 'sub/cat.tle')}
        lists = {'./all.lis': b'cat.tle\n', 'sub/all.lis': b'cat.tle\n'}
        cat = rng.choice(['cat.tle', 'cat.tle', './cat.tle', 'sub/cat.tle', '@all.lis', 'none.tle', '@none.lis'])
        lat, lon, ht = rand_site(rng)
        if rng.random() < .2: lon = rng.choice([-1, 1]) * rng.choice([rng.uniform(180, 360), rng.uniform(180, 182), rng.uniform(359, 361), rng.uniform(360, 800)])
        o = []
        if rng.random() < .97:
            o.append(('l', rng.choice([f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}'] * 5 + [f'{lat:.3f},{lon:.3f}', f'{lat:.2f}', f'{lat:.6e},{lon:.6e}', f' {lat:.3f}, {lon:.3f}', f'{lat:+.3f},{lon:+.3f}', f'{lat:.3f},{lon:.3f},', f'{lat:.3f},,5', '', ',', 'x', f'{lat:.3f};{lon:.3f}', '90,360', '-90,-180,0', f'{int(lat)},{int(lon)},{int(ht)}'])))
        if rng.random() < .5: o.append(('j', rng.choice([f'{mjd:.5f}', f'{mjd:.5f}', f'{mjd:.2f}', str(int(mjd)), f'{mjd:.6e}', '0', '-5', f' {mjd:.5f}x', '58861.5,58862', '60000.123456789', '2973483'])))
        if rng.random() < .5: o.append(('d', rng.choice([sky.mjd_text(mjd), sky.mjd_text(mjd) + '.5', sky.mjd_text(mjd) + '.500Z and more', sky.mjd_text(mjd)[:10], 'x', sky.mjd_text(mjd).replace('T', ' ')])))
        if rng.random() < .6: o.append(('p', rng.choice([f'{num(rng, rng.uniform(0, 360))},{num(rng, rng.uniform(-90, 90))}'] * 4 + ['0,-90', '360,90', '12', '12,', ',5', '1e2,-2e1', 'x', '100;5', '359.99999,0.00001'])))
        if rng.random() < .7: o.append(('r', rng.choice([num(rng, rng.uniform(0, 180)), '400', '90', '1e2', '0', '-5', 'x', '', '20.', '+20'])))
        if rng.random() < .5: o.append(('t', rng.choice(['1', '10', '600', '0', '-30', '1.9', 'x', '1e2', '60,5', '-0.5'])))
        if rng.random() < .5: o.append(('n', rng.choice(['1', '2', '10', '0', '-3', 'x', '1.9', ' 4', '+4', '1e3', '007'])))
        if rng.random() < .3: o.append(('a', rng.choice(['300,40000', '40000,300', '500', ',500', 'x', '1e3,1e5', '-1,1e9', '0,inf', '400.5,400.5'])))
        if rng.random() < .2: o.append(one_request(rng, files))
        if rng.random() < .2: o.append(('S', rng.choice(['', 'S', 'SAT', 'STARLINK'])))
        if rng.random() < .3: o.append(('D', rng.choice(['sub', './sub', 'nowhere', '.', 'sub/', '', '/nonexistent/dir'])))
        for l in 'EGHIV':
            if rng.random() < .25: o.append((l, None))
        if rng.random() < .2:
            o.append(('T', None))
            if rng.random() < .6: o.append(('D', rng.choice(['sub', '.', './sub', 'sub/'])))
        if rng.random() < .15 and o:                       # once more, otherwise
            l, v = rng.choice(o)
            o.append((l, None if v is None else rng.choice([v, v, '10', '20.5,30.5', '58900.5'])))
        rng.shuffle(o)
        extra = [rng.choice(BADOPT + ['-h'])] if rng.random() < .25 else []
        if rng.random() < .2: extra.append(rng.choice(['extra', '', 'none.tle', '5']))
        a, mixed = args_with(rng, o, cat, extra)
        W.add(o, cat, files, lists, args=a, mode='none' if mixed else 'same')


class Pairs:
    """command lines that mean the same, judged by OptTrace"""

    def __init__(self, ctx, tool, files):
        self.ctx, self.tool, self.exe = ctx, tool, ctx.tool(tool)
        self.root = tempfile.mkdtemp(prefix='opt_', dir=ctx.dir)
        for f, b in files.items():
            os.makedirs(os.path.dirname(os.path.join(self.root, f)), exist_ok=True)
            with open(os.path.join(self.root, f), 'wb') as fh: fh.write(b)
        self.P = []

    def observe(self, ids):
        rs = tools.run_many([(self.exe, a, self.root) for i in ids for a in self.P[int(i[1:])]])
        obs = []
        for k, i in enumerate(ids):
            o = {'id': i, 'tool': self.tool, 'crash': ''}
            for h, r, a in zip('ab', rs[2 * k:2 * k + 2], self.P[int(i[1:])]):
                d = tools.document(r)
                d.pop('tree')
                o[h] = dict(d, args=[bl(x) for x in a])
            obs.append(o)
        return obs

    def check(self, what):
        return self.ctx.conform('OptTrace', self.observe([f'p{k}' for k in range(len(self.P))]), what, rerun=lambda i: self.observe([i]))


def pairs_of(text):
    return sorted(set(re.match(r'"(.*)", "(.*)"$', r).groups() for r in printed(text, 'VPPAIR')))


def option_pairs(ctx, tool, mjd=58861.25):
    text = ctx.design('CliMC', cfg=('CliMC3_' if ctx.thorough else 'CliMC_') + tool + '.cfg', env={'EMIT': str((70 if tool == 'sat_skymap' else 40) if not ctx.thorough else 400), 'SEED': str(ctx.seed)})
    rng = random.Random('pairs')
    sets = [tle.tle(num=12345, desig='98067A', yy=20, day=13.2, incl=51.6, node=40, mo=20 * k, n=15.5 - 2 * k) for k in range(3)]
    sets = [tuple(tle.recheck(l[:2] + tle.num5(12345 + k) + l[7:]) for l in s) for k, s in enumerate(sets)]
    cat = lambda ch: ''.join(f'{ch}{j}\n{a}\n{b}\n' for j, (a, b) in enumerate(sets)).encode() + rand_catalogue(rng, mjd, 9, plain=True)
    P = Pairs(ctx, tool, {'./c.tle': cat('S'), 'sub/c.tle': cat('T')})
    P.P = [(a.split('|'), b.split('|')) for a, b in pairs_of(text)]
    P.check('command lines of CliMC for ' + tool)


def run_c06(ctx):
    option_pairs(ctx, 'sat_skymap')
    option_pairs(ctx, 'sat_visibility')
    W = Walks(ctx)
    c06_cases(ctx, W, ctx.budget(350, 4000))
    W.check('echoes and effect of options of sat_skymap')
    import vis
    V = vis.Vis(ctx)
    vis.c06_cases(ctx, V, ctx.budget(300, 4000))
    V.check('echoes and effect of options of sat_visibility')
