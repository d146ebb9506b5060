"""C18: FITS sky maps written, read and queried through the library."""
from vp import *
import struct


def fits_file(path, nside, vals, ordering='RING', coord='G', rowlen=1, obs=None, primary_only=False, image_ext=False, drop=(), truncate=None, rows=None):
    """a FITS file made by another program"""
    def card(k, v, q=False):
        if isinstance(v, bool): s = f'{k:<8s}= {"T" if v else "F":>20s}'
        elif isinstance(v, int): s = f'{k:<8s}= {v:>20d}'
        else: s = f"{k:<8s}= '{v:<8s}'"
        return f'{s:<80s}'
    def block(cards):
        t = ''.join(cards) + f'{"END":<80s}'
        return (t + ' ' * (-len(t) % 2880)).encode()
    d = block([card('SIMPLE', True), card('BITPIX', 8), card('NAXIS', 0), card('EXTEND', True)])
    data = b''.join(struct.pack('>i', v) for v in vals)
    if not primary_only:
        if image_ext:
            h = [card('XTENSION', 'IMAGE'), card('BITPIX', -32), card('NAXIS', 1), card('NAXIS1', len(vals)), card('PCOUNT', 0), card('GCOUNT', 1)]
        else:
            h = [card('XTENSION', 'BINTABLE'), card('BITPIX', 8), card('NAXIS', 2), card('NAXIS1', 4 * rowlen), card('NAXIS2', rows or len(vals) // rowlen), card('PCOUNT', 0), card('GCOUNT', 1), card('TFIELDS', 1), card('TTYPE1', 'SIGNAL'), card('TFORM1', f'{rowlen}E')]
        for k, v in (('PIXTYPE', 'HEALPIX'), ('ORDERING', ordering), ('NSIDE', nside), ('COORDSYS', coord), ('OBS_NPIX', obs)):
            if v is not None and k not in drop: h.append(card(k, v))
        d += block(h) + data + b'\0' * (-len(data) % 2880)
    if truncate is not None: d = d[:truncate]
    open(path, 'wb').write(d)


def word(rng):
    r = rng.random()
    if r < .6: w = struct.unpack('>i', struct.pack('>f', rng.choice([rng.gauss(0, 1), rng.uniform(-1e6, 1e6), 10 ** rng.uniform(-37, 38), 0.0, 1.0, -1.6375e30])))[0]
    elif r < .8: w = rng.randrange(-2 ** 31, 2 ** 31)
    else: w = rng.choice([0x7fc00000, 0x7f800000, -0x800000, -0x400000, 1, 0, -2 ** 31, 0x00800000, 0x007fffff, 0x7f7fffff, -240822174, -0x7fffffff, 0x7f800001, 0x3f800000])
    return w


def run_c18(ctx):
    ctx.design('FitsMapMC')
    exe = ctx.fits_driver()
    rng = ctx.rng
    C = {}
    sizes = [1, 2, 3, 4, 5, 7, 8, 16, 6]
    for k in range(ctx.budget(60, 500)):
        files, ops = [], []
        nf = rng.randrange(1, 4)
        for f in range(nf):
            r = rng.random()
            ns = rng.choice([1, 2, 4, 8])
            np = 12 * ns * ns
            v = [word(rng) for _ in range(np)]
            kw = dict(nside=ns, vals=v, ordering=rng.choice(['RING', 'NESTED']), coord=rng.choice(['G', 'E', 'C']))
            if r < .45: files.append(('absent', {}))
            elif r < .5: files.append(('junk', dict(data=rng.choice([b'', b'SIMPLE', b'\0' * 2880, b'x' * 9000, b'SIMPLE  =                    T' + b' ' * 50, bytes(rng.randrange(256) for _ in range(3000))]))))
            elif r < .55: files.append(('other', dict(kw, primary_only=True)))
            elif r < .6: files.append(('damaged', dict(kw, image_ext=True)))
            elif r < .66: files.append(('other', dict(kw, drop=('NSIDE',))))
            elif r < .72: files.append(('damaged', dict(kw, truncate=rng.choice([2880, 5760, 5761, 3000, 5760 + 2 * np]))))
            elif r < .76: files.append(('damaged', dict(kw, rows=np - 1 if np > 12 else 11, vals=v)))
            elif r < .8: files.append(('noord', dict(kw, drop=('ORDERING',))))
            elif r < .84: files.append(('nocoord', dict(kw, drop=('COORDSYS',))))
            elif r < .92: files.append(('map', dict(kw, rowlen=rng.choice([1, 4, 12]))))
            else: files.append(('map', dict(kw, obs=rng.choice([0, 7, np - 1, np]))))
        for _ in range(rng.randrange(2, 8)):
            f = rng.randrange(nf)
            op = rng.choice(['write', 'read', 'size', 'read', 'write'])
            if op == 'write':
                ns = rng.choice(sizes + [16, 32, 64] if rng.random() < .2 else sizes)
                ops.append((f, op, ns, rng.random() < .5, rng.choice(['G', 'E', 'C', 'Q', 'GALACTIC', 'E x', 'C', 'G', 'X']), rng.randrange(1 << 30)))
            else:
                ops.append((f, op))
        C[f'fits{k}'] = (files, ops)

    def observe(ids):
        out = []
        for i in ids:
            files, ops = C[i]
            d = tempfile.mkdtemp(prefix='fits_', dir=ctx.dir)
            ob = {'id': i, 'files': [], 'ops': []}
            for n, (kind, kw) in enumerate(files):
                p = f'{d}/f{n}.fits'
                if kind == 'junk': open(p, 'wb').write(kw['data'])
                elif kind != 'absent': fits_file(p, **kw)
                m = {'kind': 'map' if kind in ('map', 'noord', 'nocoord') else kind if kind in ('absent', 'damaged') else 'other', 'nside': 0, 'ordering': '', 'coord': '', 'obs': -1, 'vals': []}
                if m['kind'] == 'map':
                    m.update(nside=kw['nside'], ordering='' if kind == 'noord' else kw['ordering'], coord='' if kind == 'nocoord' else kw['coord'], obs=-1 if kw.get('obs') is None else kw['obs'], vals=kw['vals'])
                ob['files'].append(m)
            for o in ops:
                p = f'{d}/f{o[0]}.fits'
                rec = {'file': o[0] + 1, 'op': o[1], 'nside': 0, 'nest': False, 'coord': '', 'ordering': '', 'vals': [], 'npix': 0, 'ok': False, 'said': False, 'crash': ''}
                if o[1] == 'write':
                    r2 = random.Random(o[5])
                    v = [word(r2) for _ in range(12 * o[2] ** 2)]
                    rec.update(nside=o[2], nest=o[3], coord=o[4][0], vals=v)
                    cmd = f'write {p} {o[2]} {int(o[3])} {o[4].split()[0]} ' + ' '.join('%08x' % (x & 0xffffffff) for x in v)
                else:
                    cmd = f'{o[1]} {p}'
                try:
                    r = subprocess.run([exe], input=(cmd + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=60)
                except subprocess.TimeoutExpired:
                    rec['crash'] = 'timeout'; ob['ops'].append(rec); continue
                if r.returncode not in (0, 1):
                    rec['crash'] = f'rc={r.returncode}'
                a = r.stdout.decode().split()
                rec['ok'] = r.returncode == 0 and bool(a) and a[0] != 'null'
                rec['said'] = bool(r.stderr.strip())
                if rec['ok'] and o[1] == 'read':
                    rec['nside'] = int(a[1])
                    t = a[2:]
                    words = [x for x in t if re.fullmatch('[0-9a-f]{8}', x)]
                    txt = r.stdout.decode().split(' ')
                    rec['ordering'], rec['coord'] = txt[2], txt[3]
                    rec['vals'] = [int(x, 16) - (1 << 32 if int(x, 16) >> 31 else 0) for x in words]
                if rec['ok'] and o[1] == 'size':
                    rec['npix'], rec['nside'], rec['ordering'] = int(a[0]), int(a[1]), a[2]
                ob['ops'].append(rec)
            shutil.rmtree(d)
            out.append(ob)
        return out
    with ThreadPoolExecutor(8) as ex:
        obs = [o for l in ex.map(lambda i: observe([i]), list(C)) for o in l]
    ctx.conform('FitsTrace', obs, 'FITS maps written, read and queried', rerun=lambda i: observe([i]))
