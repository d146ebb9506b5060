"""The scripts of the repository of TLE files, run with a stand-in for curl(1) as an unprivileged
user in a directory of their own, judged by RepoTrace (C19, C20)."""
from vp import *
import tle
import datetime

MAIN = 'last-30-days stations visual active analyst weather noaa goes resource sarsat dmc tdrss argos spire geo iridium iridium-NEXT globalstar swarm amateur x-comm other-comm satnogs gorizont raduga molniya gnss gps-ops glo-ops galileo beidou sbas nnss musson science geodetic engineering education military radar cubesat other'.split()
SUPP = 'starlink oneweb planet iridium gps glonass meteosat intelsat ses telesat orbcomm iss cpf'.split()
DEB = '1982-092 1999-025 iridium-33-debris cosmos-2251-debris'.split()
SPECIAL = 'gpz gpz-plus'.split()
KEYS = [('GROUP', n) for n in MAIN] + [('FILE', n) for n in SUPP] + [('GROUP', n) for n in DEB] + [('SPECIAL', n) for n in SPECIAL]
NAMES = sorted({n for _, n in KEYS} - {'gps', 'iss'})
DAYS = [('gaia_2025.txt', 'Gaia', '39479', '13074A'), ('jwt_2025.txt', 'James Webb', '50463', '21130A'), ('euclid_2025.txt', 'Euclid', '57209', '23092A'), ('juice_2024.txt', 'JUICE', '56176', '23053A')]
NOBODY = 65534


def fnv(b):
    h = 1469598103934665603
    for c in b: h = ((h ^ c) * 1099511628211) & 0xffffffffffffffff
    return '%016x' % h


def mjd_now(): return int(time.time()) // 86400 + 40588


class Repo:
    """one machine: the scripts, their /tmp, a directory of TLE files"""

    def __init__(self, ctx, k, place='abs', stub=False):
        self.ctx, self.rng = ctx, ctx.rng
        self.root = R = os.path.join(ctx.dir, f'm{k}')
        os.chmod(ctx.dir, 0o755)
        for d in ('tmp', 'bin', 'usr/local/bin', 'usr/local', 'work', 'data'):
            os.makedirs(os.path.join(R, d), exist_ok=True)
        curl = os.path.join(ctx.dir, 'curl')
        if not os.path.exists(curl):
            r = subprocess.run(['gcc', '-O1', '-o', curl, VERIF + '/harness/curl.c'], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode: raise CheckError('curl stand-in: ' + r.stdout.decode()[-500:])
        shutil.copy(curl, R + '/bin/curl')
        self.sub = {'abs': 'work/repo', 'default': 'usr/local/TLErepo', 'rel': 'work/a/repo', 'space': 'work/my tle files', 'missing': 'work/none', 'file': 'work/notadir', 'link': 'work/real', 'dot': 'work'}[place]
        self.place = place
        self.repo = os.path.join(R, self.sub)
        for s in ('tle_retrieve.sh', 'tle_satcount.sh'):
            t = open(os.path.join(ctx.src(), 'scripts', s), encoding='latin-1').read()
            t = re.sub(r'(?<![\w.}-])(?<!\w/)/(tmp\b|usr/local/)', R + r'/\1', t)
            if stub and s == 'tle_satcount.sh': t = '#!/bin/bash\nexit 0\n'
            with open(f'{R}/usr/local/bin/{s}', 'w', encoding='latin-1') as f: f.write(t)
            os.chmod(f'{R}/usr/local/bin/{s}', 0o755)
        if place not in ('missing', 'file'): os.makedirs(self.repo, exist_ok=True)
        if place == 'file': self.put(self.repo, b'this is no directory\n')
        if place == 'link': os.symlink('real', R + '/work/link')
        self.arg = {'abs': [self.repo], 'default': [], 'rel': ['a/repo'], 'space': [self.repo], 'missing': [self.repo], 'file': [self.repo], 'link': ['./link'], 'dot': ['.']}[place]
        self.ids = {}          # hash -> number
        self.bytes = {}        # number -> content

    def put(self, path, b):
        with open(path, 'wb') as f: f.write(b)

    def id(self, b):
        h = fnv(b)
        if h not in self.ids:
            self.ids[h] = len(self.ids) + 1
            self.bytes[self.ids[h]] = b
        return self.ids[h]

    def of_hash(self, h):
        if h not in self.ids: self.ids[h] = len(self.ids) + 1
        return self.ids[h]

    def listing(self):
        res = {}
        if os.path.isdir(self.repo):
            for n in sorted(os.listdir(self.repo)):
                p = os.path.join(self.repo, n)
                if os.path.isfile(p) and not os.path.islink(p):
                    with open(p, 'rb') as f: res[n] = self.id(f.read())
                elif os.path.islink(p): res[n] = self.id(b'link ' + os.readlink(p).encode())
                else: res[n] = self.id(b'directory')
        return res

    def elsewhere(self):
        """everything outside the directory but the stand-ins and what the scripts may write"""
        res = {}
        for d, ds, fs in os.walk(self.root):
            if os.path.abspath(d) == os.path.abspath(self.repo) and self.place not in ('missing', 'file'):
                ds[:] = [x for x in ds if x == 'a' and self.place == 'dot'] if self.place == 'dot' else []
                continue
            for n in fs + ds:
                p = os.path.join(d, n)
                q = os.path.relpath(p, self.root)
                if q in ('tmp/tle_retrieve.log', 'tmp/tle_satcount.log', 'tmp/tle_satcount_deb.log', 'data/log', 'data/plan') or q.startswith(('data/', 'bin/')): continue
                if os.path.isfile(p) and not os.path.islink(p):
                    with open(p, 'rb') as f: res[q] = fnv(f.read())
                else: res[q] = 'other'
        return res

    def own(self):
        for d, ds, fs in os.walk(self.root):
            for n in ds + fs: os.lchown(os.path.join(d, n), NOBODY, NOBODY)
        os.chown(self.root, NOBODY, NOBODY)

    def run(self, script, timeout=120):
        env = dict(ENV, PATH=f'{self.root}/bin:/usr/bin:/bin', TMPDIR=self.root + '/tmp', HOME=self.root, VPC_DIR=self.repo, VPC_PLAN=self.root + '/data/plan', VPC_LOG=self.root + '/data/log')
        try:
            r = subprocess.run([f'{self.root}/usr/local/bin/{script}', *self.arg], cwd=self.root + '/work', env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                               timeout=timeout, user=NOBODY, group=NOBODY, extra_groups=[])
            return r.returncode, ('' if r.returncode >= 0 else f'signal {-r.returncode}')
        except subprocess.TimeoutExpired:
            return -1, 'does not end'
        except (PermissionError, subprocess.SubprocessError) as e:
            raise CheckError('cannot run as an unprivileged user: ' + str(e))

    # ------------------------------------------------------------------ retrieval
    def retrieve(self, ident, plan, special=True):
        """plan: {(kind, name): (code, exit, bytes, moved, body)}"""
        lines, new = [], {}
        for k, ((kind, name), (code, rc, n, moved, body)) in enumerate(plan.items()):
            f = f'{self.root}/data/b{k}'
            self.put(f, body)
            new[kind, name] = body
            lines.append(f'{kind} {name} {code} {rc} {n} {int(moved)} {f}')
        self.put(self.root + '/data/plan', ('\n'.join(lines) + '\n').encode())
        self.put(self.root + '/data/log', b'')
        self.own()
        if self.place == 'ro': os.chmod(self.repo, 0o555)
        before, out0 = self.listing(), self.elsewhere()
        days = {mjd_now()}
        rc, crash = self.run('tle_retrieve.sh')
        days.add(mjd_now())
        after, out1 = self.listing(), self.elsewhere()
        ev, cur = [], dict(before)
        with open(self.root + '/data/log', encoding='latin-1') as f: log = f.read().split('\n')
        e, files = None, {}

        def close():
            if e is None: return
            chg = [[n, files.get(n, 0)] for n in sorted(set(files) | set(cur)) if files.get(n, 0) != cur.get(n, 0) and (n in files or cur.get(n) not in odd)]
            e['chg'] = chg
            for n, i in chg:
                if i: cur[n] = i
                else: cur.pop(n, None)
            ev.append(e)
        odd = {self.id(b'directory')}
        for l in log:
            w = l.split(' ')
            if w[0] in ('S', 'M', 'E', 'H'):
                close()
                files = {}
                b = new.get((w[1], w[2]), b'')
                e = dict(e=w[0], kind=w[1], name=w[2], code=0, exit=0, whole=False, new=self.id(b), chg=[])
                if w[0] == 'E':
                    e.update(code=int(w[3]), exit=int(w[4]), whole=int(w[5]) == len(b) and w[4] != '23' and (w[1], w[2]) in new)
            elif w[0] == 'F':
                files[l[19:]] = self.of_hash(w[1])
        close()
        last = [[n, after.get(n, 0)] for n in sorted(set(after) | set(cur)) if after.get(n, 0) != cur.get(n, 0)]
        wanted = {'special.txt', 'science.txt', 'stations.txt', 'active.txt'} | {d[0] for d in DAYS}
        texts = [dict(id=i, lines=[bl(x) for x in self.bytes[i].split(b'\n')[:-1]]) for i in sorted({after[n] for n in wanted & set(after)}) if i in self.bytes]
        return dict(id=ident, kind='retrieve', crash=crash, rc=rc, absent=self.place in ('missing', 'file'), special=special and self.place != 'ro', mjds=[bl(str(d)) for d in sorted(days)],
                    before=[[n, i] for n, i in before.items()], ev=ev, after=last, texts=texts,
                    outside=sorted(q for q in set(out0) | set(out1) if out0.get(q) != out1.get(q) and not (q.startswith('tmp/') and q not in out0)))

    # --------------------------------------------------------------------- counts
    def entries(self, path):
        if not os.path.exists(path): return []
        res = []
        for l in open(path, encoding='latin-1').read().split('\n'):
            if l: res.append((l.split(' ') + [''])[:2])
        return res

    def counted(self, ident, crash):
        groups = []
        for n in sorted(os.listdir(self.repo)):
            if n.endswith('.txt') and n[:-4] in NAMES + ['iss']:
                ls = open(os.path.join(self.repo, n), 'rb').read().split(b'\n')[:-1]
                groups.append(dict(name=n[:-4], nums=[l[2:7].decode('latin-1') for l in ls[2::3]]))
        t = self.root + '/tmp/'
        lis = os.path.join(self.repo, 'cur_norad_ids.lis')
        php, shape = [], []
        p = os.path.join(self.repo, 'cur_tlesat_count.php')
        if os.path.exists(p):
            for l in open(p, encoding='latin-1').read().split('\n')[:-1]:
                m = re.match(r'''\s*["']([^"']*)["']\s*=>\s*(.*?)\s*$''', l)
                if m: php.append((m[1], m[2]))
                else: shape.append(l.strip())
        # commas stand between entries
        php = [[k, v[:-1] if v.endswith(',') and i < len(php) - 1 else v if i == len(php) - 1 else 'no comma'] for i, (k, v) in enumerate(php)]
        return dict(id=ident, kind='count', crash=crash, groups=groups, log=self.entries(t + 'tle_satcount.log'), deb=self.entries(t + 'tle_satcount_deb.log'),
                    ids=open(lis, encoding='latin-1').read().split('\n')[:-1] if os.path.exists(lis) else [], php=php, shape=shape)

    def count(self, ident):
        self.own()
        rc, crash = self.run('tle_satcount.sh')
        return self.counted(ident, crash)


# ------------------------------------------------------------------------- contents
WORDS = ['HST', 'CXO', 'GLAST', 'SWIFT', 'NUSTAR', 'AGILE', 'INTEGRAL', 'ASTROSAT', 'HXMT', 'XMM', 'WISE', 'SDO', 'IXPE', 'ISS (ZARYA)', 'CHEOPS', 'TESS', 'ZARYA', 'OBJECT A', 'STARLINK-1', 'DEB', 'ISS (NAUKA)', 'CHEOPS DEB', 'COSMOS 1408']


def group_file(rng, n, pool=None, crlf=None):
    crlf = rng.random() < .5 if crlf is None else crlf
    e = '\r\n' if crlf else '\n'
    res = ''
    for _ in range(n):
        num = rng.choice(pool) if pool else str(rng.randrange(1, 100000)).zfill(5)
        l1, l2 = tle.tle(num=25544, incl=rng.uniform(0, 120), node=rng.uniform(0, 360), n=rng.uniform(1, 16))
        l1, l2 = (x + tle.ck(x) for x in (l1[:2] + num + l1[7:68], l2[:2] + num + l2[7:68]))
        name = rng.choice(WORDS + ['SAT %d' % rng.randrange(1000)] * 10)
        if name == 'SAT' : name = 'SAT 1'
        res += name.ljust(24 if crlf else rng.choice([0, 24])) + e + l1 + e + l2 + e
    return res.encode()


def day_file(rng, name, num, desig):
    m = mjd_now()
    res = '# Elements for each day\n#\n'
    for d in range(m - rng.randrange(0, 3), m + rng.randrange(0, 3) + 1):
        l1, l2 = tle.tle(num=int(num), desig=desig, incl=rng.uniform(0, 120), n=rng.uniform(1, 16)) if rng.random() < .3 else (f'1 {num}U {desig}   24366.99919926 -004RHIJU +00KZVVAR +006RS7G2H 25482', f'2 {num}                          -0002EVVI -0000CULT -0000D6BF     05')
        if str(m) in (l1 + l2)[20:]: continue
        res += f'# Worst residual: 0.{rng.randrange(10, 99)} km\n# MJD {d}.000000 (2026)\n{name} = 20{desig[:2]}-{desig[2:]} = NORAD {num}\n{l1}\n{l2}\n\n'
    return res.encode()


OUTCOMES = ['ok'] * 3 + ['moved', 'http', 'http', 'http_tle', 'nocontent', 'part206', 'connect', 'cut', 'cut', 'cutset', 'timeout', 'timeout0', 'late', 'empty', 'nobody']


def transfer(rng, kind, body):
    n = len(body)
    cut = lambda: rng.choice([0, 1, rng.randrange(n), max(0, n - 1), max(0, n - 2), n // 2])
    page = ('<html><head><title>error</title></head><body>' + 'x' * rng.randrange(400) + '</body></html>\n').encode()
    if kind == 'ok': return 200, 0, -1, False, body
    if kind == 'moved': return 200, 0, -1, True, body
    if kind == 'http': return rng.choice([400, 403, 404, 404, 410, 429, 500, 502, 503, 504]), 0, -1, False, rng.choice([page, b'', b'Invalid query\n', b'GP data has not updated\n'])
    if kind == 'http_tle': return rng.choice([403, 404, 500, 503]), 0, -1, False, body
    if kind == 'nocontent': return rng.choice([204, 304]), 0, rng.choice([-2, 0]), False, body
    if kind == 'part206': return 206, 0, cut(), False, body
    if kind == 'connect': return 0, rng.choice([5, 6, 7, 35, 52, 56, 60]), -2, False, body
    if kind == 'cut': return 200, rng.choice([18, 56, 92]), cut(), False, body
    if kind == 'cutset':
        k = [i + 1 for i, c in enumerate(body) if c == 10][2::3]
        return 200, rng.choice([18, 28, 56]), rng.choice(k[:-1] or [0]), False, body
    if kind == 'timeout': return 200, 28, cut(), False, body
    if kind == 'timeout0': return 0, 28, -2, False, body
    if kind == 'late': return 200, 28, -1, False, body
    if kind == 'nobody': return 200, 0, -2, False, body
    if kind == 'empty': return 200, 18, rng.choice([0, -2]), False, body
    raise ValueError(kind)


def plan(rng, mode):
    res = {}
    one = rng.choice(KEYS)
    bad = [k for k in OUTCOMES if k not in ('ok', 'moved')]
    same = rng.choice(bad)
    for k in KEYS:
        body = group_file(rng, rng.choice([1, 1, 2, 3]))
        o = {'ok': 'ok', 'moved': 'moved', 'fail': same, 'one': rng.choice(bad) if k == one else 'ok', 'onlyone': 'ok' if k == one else rng.choice(bad), 'mix': rng.choice(OUTCOMES), 'few': rng.choice(OUTCOMES) if rng.random() < .2 else 'ok'}[mode]
        if mode == 'pair' : o = 'ok'
        res[k] = transfer(rng, o, body)
    return res


def fill(m, p=.7):
    rng = m.rng
    for n in NAMES + ['iss']:
        if rng.random() < p: m.put(f'{m.repo}/{n}.txt', group_file(rng, rng.choice([1, 1, 2, 3])))
    for f, name, num, desig in DAYS:
        if rng.random() < .6: m.put(f'{m.repo}/{f}', day_file(rng, name, num, desig))
    for f, b in [('gps.txt', group_file(rng, 2)), ('tle.tmp', rng.choice([group_file(rng, 1)[:77], b'<html>old page</html>\n', b''])), ('special.txt', group_file(rng, 2)), ('notes.txt', b'mine\n'), ('my.tle', group_file(rng, 1)),
                 ('list.lis', b'stations.txt\n'), ('cur_norad_ids.lis', b'00001\n'), ('cur_norad_ids.lis_tmp', b'00001\n00002\n'), ('gps-ops.txt.bak', b'x\n'), ('iridium', b'y\n')]:
        if rng.random() < .4: m.put(f'{m.repo}/{f}', b)
    if rng.random() < .3: os.makedirs(m.repo + '/old', exist_ok=True)


def parallel(jobs, n=8):
    with ThreadPoolExecutor(n) as ex: return list(ex.map(lambda j: j(), jobs))


def run_c19(ctx):
    ctx.design('RetrieveMC', 'RetrieveMC.cfg')
    for g in ('remove', 'exit', 'code') if ctx.thorough else [ctx.rng.choice(['remove', 'exit', 'code'])]: ctx.design('RetrieveMC', f'RetrieveMC{g}.cfg', fails=True)
    rng = ctx.rng
    places = ['abs'] * 3 + ['default', 'rel', 'space', 'link', 'dot']
    modes = ['mix'] * 5 + ['ok', 'moved', 'fail', 'fail', 'one', 'onlyone', 'few', 'few']
    plans = []
    for k in range(ctx.budget(40, 400)):
        place = 'missing' if k == 0 else 'file' if k == 1 else places[k % len(places)]
        plans.append((place, [rng.choice(modes) for _ in range(rng.choice([1, 1, 2, 3]))], rng.random() < .7))
    jobs = []
    for k, (place, ms, stub) in enumerate(plans):
        m = Repo(ctx, k, place, stub)
        m.rng = random.Random(rng.random())
        jobs.append((m, ms, k))

    def history(m, ms, k):
        rng = m.rng
        if m.place not in ('missing', 'file'): fill(m, rng.choice([0, .7, .7, 1]))
        for n in rng.sample(NAMES, 5): m.put(f'{m.root}/work/{n}.txt' if m.place != 'dot' else f'{m.root}/data/{n}.txt', group_file(rng, 1))
        m.put(f'{m.root}/tmp/tle_retrieve.log', b'log of the run before\n')
        m.put(f'{m.root}/tmp/other.txt', b'not yours\n')
        obs = []
        for i, mode in enumerate(ms):
            p = plan(rng, mode)
            obs.append(m.retrieve(f'r{k}_{i}', p))
            if m.place not in ('missing', 'file') and rng.random() < .3:
                for n in rng.sample(NAMES, 5):
                    if os.path.exists(f'{m.repo}/{n}.txt'): os.unlink(f'{m.repo}/{n}.txt')
        shutil.rmtree(m.root, ignore_errors=True)
        return obs
    res = parallel([lambda j=j: history(*j) for j in jobs])
    ctx.conform('RepoTrace', [o for r in res for o in r], 'retrievals with faults of every kind in every combination')


def run_c20(ctx):
    rng = ctx.rng
    places = ['abs'] * 4 + ['default', 'rel', 'space', 'link', 'dot']
    machines = [Repo(ctx, k, places[k % len(places)]) for k in range(ctx.budget(30, 300))]
    for m in machines: m.rng = random.Random(rng.random())

    def history(k, m):
        rng = m.rng
        pool = [str(rng.randrange(1, 100000)).zfill(5) for _ in range(rng.choice([3, 30, 300]))] + ['A0001', 'A0002', 'B1234', '00005', '00050']
        obs = []
        for f, b in [('cur_norad_ids.lis', b'99999\n'), ('cur_norad_ids.lis_tmp', b'99998\n'), ('cur_tlesat_count.php', b'<?php\n$old = 1;\n?>\n')]:
            if rng.random() < .5: m.put(f'{m.repo}/{f}', b)
        for f in ('tle_satcount.log', 'tle_satcount_deb.log'):
            if rng.random() < .5: m.put(f'{m.root}/tmp/{f}', b'stations 7\nother 2\n')
        if m.place != 'dot':
            m.put(f'{m.root}/work/cur_norad_ids.lis', b'99997\n')
            m.put(f'{m.root}/work/stations.txt', group_file(rng, 2, ['99996']))
        p = rng.choice([0, .3, .7, 1, 1])
        for i in range(rng.choice([1, 2, 3])):
            for n in NAMES + ['iss', 'special', 'gps', 'notes']:
                f = f'{m.repo}/{n}.txt'
                x = rng.random()
                if i == 0 and x < p or i and x < .2: m.put(f, group_file(rng, rng.choice([0, 1, 1, 2, 3, 3, 10, 34]), pool))
                elif i and x > .9 and os.path.exists(f): os.unlink(f)
                elif i and .85 < x <= .9: m.put(f, b'')
            if rng.random() < .1: m.put(f'{m.repo}/starlink.txt', group_file(rng, 700, None))
            if rng.random() < .15:
                # the totals follow a retrieval
                o = m.retrieve(f'x{k}_{i}', plan(rng, rng.choice(['mix', 'ok', 'one'])))
                obs.append(m.counted(f'c{k}_{i}', o['crash']))
            else:
                obs.append(m.count(f'c{k}_{i}'))
        shutil.rmtree(m.root, ignore_errors=True)
        return obs
    res = parallel([lambda k=k, m=m: history(k, m) for k, m in enumerate(machines)])
    ctx.conform('RepoTrace', [o for r in res for o in r], 'counts of repositories of every content, in histories')
