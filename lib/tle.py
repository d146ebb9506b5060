"""Generators of two-line element sets (inputs only; no judgement)."""
import math

B34 = '0123456789ABCDEFGHJKLMNPQRSTUVWXYZ'


def ck(l):
    return str(sum(int(c) if c.isdigit() else 1 if c == '-' else 0 for c in l[:68]) % 10)


def sci(x):
    """sMMMMMsE"""
    if x == 0:
        return ' 00000-0'
    s = '-' if x < 0 else ' '
    x = abs(x)
    e = math.floor(math.log10(x)) + 1
    m = round(x / 10 ** e * 100000)
    if m >= 100000:
        m, e = 10000, e + 1
    if e < -9:
        return ' 00000-0'
    return f'{s}{m:05d}{"-" if e <= 0 else "+"}{min(abs(e), 9)}'


def num5(n):
    """catalogue number text; accepts int or text"""
    if isinstance(n, str):
        return n
    if n < 100000:
        return f'{n:05d}'
    return 'ABCDEFGHJKLMNPQRSTUVWXYZ'[n // 10000 - 10] + f'{n % 10000:04d}'


def tle(num=25544, desig='98067A', yy=20, day=13.5, ndot=0.0, nddot=0.0, bstar=0.0, typ='0', setn=999,
        incl=51.6, node=100.0, ecc=0.001, argp=50.0, mo=10.0, n=15.5, rev=12345, cls='U', fix=True):
    nd = f'{abs(ndot):.8f}'[1:]
    l1 = f"1 {num5(num)}{cls} {desig:<8.8s} {yy:02d}{day:012.8f} {'-' if ndot < 0 else ' '}{nd} {sci(nddot)} {sci(bstar)} {typ} {setn:4d}"
    l2 = f"2 {num5(num)} {incl:8.4f} {node:8.4f} {round(ecc * 1e7):07d} {argp:8.4f} {mo:8.4f} {n:11.8f}{rev:5d}"
    assert len(l1) == 68 and len(l2) == 68, (l1, l2)
    return l1 + ck(l1), l2 + ck(l2)


def b36(v):
    s = ''
    a = abs(int(v))
    for _ in range(8):
        s = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'[a % 36] + s
        a //= 36
    return ('-' if v < 0 else '+') + s


def high(num=40391, desig='15007B', yy=15, day=91.99922241, pos=(1e10, 2e10, 3e9), vel=(1e7, -2e7, 3e6), setn=999, rev=0):
    """pos in metres, vel in 1e-4 m/s"""
    l1 = f"1 {num5(num)}U {desig:<8.8s} {yy:02d}{day:012.8f} {b36(pos[0])} {b36(pos[1])} {b36(pos[2])}H {setn:4d}"
    l2 = f"2 {num5(num)} {'[valid range, accuracy]':<24s} {b36(vel[0])} {b36(vel[1])} {b36(vel[2])}"
    l2 = f"{l2:<63s}{rev:5d}"
    assert len(l1) == 68 and len(l2) == 68, (len(l1), len(l2), l1, l2)
    return l1 + ck(l1), l2 + ck(l2)


def recheck(l):
    return l[:68] + ck(l)


REGIMES = ['leo', 'leo2', 'sso', 'low', 'decay', 'ecc', 'near225', 'deep225', 'meo', 'gps', 'molniya', 'gto', 'geo', 'geoinc', 'geoecc', 'super', 'halfday_e', 'retro', 'eq', 'highdrag', 'wild', 'perigee']


def rand_tle(rng, regime=None, num=None, desig=None, yy=None, day=None, **kw):
    r = regime or rng.choice(REGIMES)
    a = dict(num=num if num is not None else rng.randrange(1, 99999), desig=desig or f'{rng.randrange(57, 123) % 100:02d}{rng.randrange(1, 999):03d}{rng.choice("ABCDE")}',
             yy=yy if yy is not None else rng.choice([19, 20, 21, 99, 60]), day=day if day is not None else round(rng.uniform(1, 365), 8),
             node=rng.uniform(0, 359.9999), argp=rng.uniform(0, 359.9999), mo=rng.uniform(0, 359.9999), incl=rng.uniform(0, 179), ecc=0.0,
             bstar=rng.choice([0, 1e-4, 5e-5, -2e-5, 3e-3]), ndot=rng.choice([0, 1e-5, -2e-6, 5e-4]), nddot=rng.choice([0, 0, 1e-7, -1e-8]),
             rev=rng.randrange(0, 99999), setn=rng.randrange(0, 9999), n=15.0)
    u = rng.uniform
    if r == 'leo': a.update(n=u(13.5, 15.7), ecc=u(0, .01))
    elif r == 'leo2': a.update(n=u(11, 14), ecc=u(0, .1))
    elif r == 'sso': a.update(n=u(14, 15), ecc=u(0, .002), incl=u(97, 99))
    elif r == 'low': a.update(n=u(16.0, 16.5), ecc=u(0, .003), bstar=u(1e-5, 2e-3))
    elif r == 'decay': a.update(n=u(16.2, 17.2), ecc=u(0, .02), bstar=u(1e-3, .3))
    elif r == 'ecc': a.update(n=u(7, 10), ecc=u(.1, .35))
    elif r == 'near225': a.update(n=u(6.401, 6.8), ecc=u(0, .4))
    elif r == 'deep225': a.update(n=u(5.5, 6.3995), ecc=u(0, .5))
    elif r == 'meo': a.update(n=u(2.6, 5.5), ecc=u(0, .5))
    elif r == 'gps': a.update(n=u(1.95, 2.05), ecc=u(0, .02), incl=u(50, 66))
    elif r == 'molniya': a.update(n=u(1.98, 2.03), ecc=u(.5, .76), incl=u(60, 66))
    elif r == 'halfday_e': a.update(n=u(1.9, 2.1), ecc=rng.choice([u(.5, .65), u(.65, .7), u(.7, .715), u(.715, .85)]), incl=u(1, 175))
    elif r == 'gto': a.update(n=u(2.1, 2.6), ecc=u(.69, .74), incl=u(0, 30), bstar=u(0, 1e-3))
    elif r == 'geo': a.update(n=u(1.0020, 1.0035), ecc=u(0, .001), incl=u(0, .15))
    elif r == 'geoinc': a.update(n=u(.995, 1.01), ecc=u(0, .01), incl=u(1, 20))
    elif r == 'geoecc': a.update(n=u(.92, 1.2), ecc=u(.1, .6), incl=u(1, 80))
    elif r == 'super': a.update(n=u(.05, .9), ecc=u(0, .8))
    elif r == 'retro': a.update(n=u(1, 15), ecc=u(0, .05), incl=rng.choice([180.0, 179.9999, u(170, 180), u(100, 150)]))
    elif r == 'eq': a.update(n=u(1, 15), ecc=u(0, .05), incl=rng.choice([0.0, 0.0001, u(0, 1), u(0, 3)]))
    elif r == 'highdrag': a.update(n=u(14.5, 16), ecc=u(0, .005), bstar=rng.choice([.01, .05, -.01]))
    elif r in ('perigee', 'perigeedeep'):   # perigees of every height, thickest about 98, 156 and 220 km
        hp = rng.choice([u(40, 98), u(78, 98), u(95, 101), u(98, 156), u(152, 160), u(156, 220), u(215, 225), u(220, 600)])
        e = rng.choice([u(0, .005), u(0, .05), u(0, .4)]) if r == 'perigee' else u(.52, .8)
        a.update(n=43200 / math.pi * math.sqrt(398600.8 / ((6378.135 + hp) / (1 - e)) ** 3), ecc=e, bstar=rng.choice([u(1e-5, 2e-3), u(1e-3, .3), u(-.01, 0)]))
    elif r == 'wild': a.update(n=rng.choice([0.0, u(0, 1), u(1, 17), u(17, 25), 99.99]), ecc=rng.choice([0.0, .9999999, u(0, 1), u(.9, 1)]), bstar=u(-.5, .5), incl=u(0, 360))
    a.update(kw)
    return tle(**a)
