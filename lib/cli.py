"""Runs of both tools whose times and sky (not satellites) are judged: C09, C16."""
from vp import *
import tle, sky, vis
from sky import num, rand_site, mjd_text


def skymap_epochs(ctx, W, runs):
    rng = ctx.rng
    l1, l2 = tle.tle(num='12345', desig='98067A', yy=20, day=13.5)
    cat = f'SAT\n{l1}\n{l2}\n'.encode()
    for _ in range(runs):
        lat, lon, ht = rand_site(rng)
        mjd = rng.choice([rng.uniform(15020, 88069), rng.uniform(0, 2973480), rng.uniform(50000, 65000), rng.uniform(58000, 60000), rng.randrange(40000, 70000), rng.randrange(40000, 70000) + .5, -rng.uniform(0, 20000), *[sky.sky_turn(rng, lon)] * 4])
        mjd = round(mjd, rng.choice([5, 5, 5, 2, 8, 8]))
        o = [('l', f'{num(rng, lat)},{num(rng, lon)},{num(rng, ht, 1)}')]
        if mjd < 0 or rng.random() < .5: o.append(('j', repr(mjd)))
        else: o.append(('d', mjd_text(mjd) + rng.choice(['', 'Z', '.500', '.9'])))
        r = rng.random()
        if r < .5: o.append(('p', f'{num(rng, rng.choice([0, 360, 180, rng.uniform(0, 360), rng.uniform(0, 360)]))},{num(rng, rng.choice([0, 90, -90, lat, rng.uniform(-90, 90), rng.uniform(-90, 90)]))}'))
        if r > .8: o.append(('E', None))
        if rng.random() < .2: o.append(('s', '12345'))
        rng.shuffle(o)
        W.add(o, 'c.tle', {'c.tle': cat}, mode='none')


def runs_of_both(ctx, n):
    W = sky.Walks(ctx)
    skymap_epochs(ctx, W, n)
    W.check('times, region and Sun in runs of sat_skymap')
    V = vis.Vis(ctx)
    vis.epoch_cases(ctx, V, n)
    V.check('times, zenith and Sun in runs of sat_visibility')


def epoch_runs(ctx):
    runs_of_both(ctx, ctx.budget(250, 4000))


def c16_runs(ctx):
    runs_of_both(ctx, ctx.budget(300, 5000))
