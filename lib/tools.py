"""Running the command-line programs and transcribing what they print (no judgement)."""
from vp import *
import re

NUM = re.compile(r'-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?')


class NotJson(Exception):
    pass


def parse(b):
    """strict JSON; numbers stay texts ('n', text), strings ('s', bytes)"""
    try: b.decode('utf-8')
    except UnicodeDecodeError: raise NotJson()
    t = b.decode('latin-1')
    n = len(t)

    def ws(i):
        while i < n and t[i] in ' \t\r\n': i += 1
        return i

    def string(i):
        i += 1
        out = []
        while True:
            if i >= n or t[i] < ' ': raise NotJson()
            if t[i] == '"': return ''.join(out).encode('latin-1', 'replace'), i + 1
            if t[i] == '\\':
                c = t[i + 1:i + 2]
                if c == 'u':
                    if not re.fullmatch('[0-9a-fA-F]{4}', t[i + 2:i + 6]): raise NotJson()
                    out.append(chr(int(t[i + 2:i + 6], 16))); i += 6
                    continue
                m = {'"': '"', '\\': '\\', '/': '/', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t'}.get(c)
                if m is None: raise NotJson()
                out.append(m); i += 2
            else:
                out.append(t[i]); i += 1

    def value(i):
        i = ws(i)
        if i >= n: raise NotJson()
        c = t[i]
        if c == '{':
            res = []
            i = ws(i + 1)
            if i < n and t[i] == '}': return ('o', res), i + 1
            while True:
                i = ws(i)
                if i >= n or t[i] != '"': raise NotJson()
                k, i = string(i)
                i = ws(i)
                if i >= n or t[i] != ':': raise NotJson()
                v, i = value(i + 1)
                res.append((k.decode('latin-1'), v))
                i = ws(i)
                if i < n and t[i] == ',': i += 1
                elif i < n and t[i] == '}': return ('o', res), i + 1
                else: raise NotJson()
        if c == '[':
            res = []
            i = ws(i + 1)
            if i < n and t[i] == ']': return ('a', res), i + 1
            while True:
                v, i = value(i)
                res.append(v)
                i = ws(i)
                if i < n and t[i] == ',': i += 1
                elif i < n and t[i] == ']': return ('a', res), i + 1
                else: raise NotJson()
        if c == '"':
            s, i = string(i)
            return ('s', s), i
        for w in ('true', 'false', 'null'):
            if t.startswith(w, i): return ('l', w), i + len(w)
        m = NUM.match(t, i)
        if not m: raise NotJson()
        return ('n', m.group(0)), m.end()
    v, i = value(0)
    if ws(i) != n: raise NotJson()
    return v


def flat(v, pre='', out=None, keys=None, skip=()):
    """leaves by path; keys: every member path met, in order"""
    if out is None: out, keys = {}, []
    if v[0] == 'o':
        for k, x in v[1]:
            p = pre + ('.' if pre else '') + k
            keys.append(p)
            if p in skip: continue
            flat(x, p, out, keys, skip)
    elif v[0] == 'a':
        for i, x in enumerate(v[1]):
            flat(x, f'{pre}.{i}', out, keys, skip)
    elif v[0] == 'n': out[pre] = {'k': 'n', 't': v[1], 's': []}
    elif v[0] == 's': out[pre] = {'k': 's', 't': '', 's': list(v[1])}
    else: out[pre] = {'k': 'l', 't': v[1], 's': []}
    return out, keys


def get(v, k):
    if v and v[0] == 'o':
        for a, b in v[1]:
            if a == k: return b
    return None


SAN = re.compile(rb'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|WARNING: MemorySanitizer[^\n]*|stack smashing[^\n]*|buffer overflow detected[^\n]*|free\(\)[^\n]*|malloc[^\n]*|double free[^\n]*)')


def run(exe, args, cwd, timeout=60, limit=None):
    """-> dict(rc, crash, out)"""
    try:
        r = subprocess.run([exe] + [a if isinstance(a, bytes) else a.encode('latin-1') for a in args], cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='print_stacktrace=0:exitcode=99', MSAN_OPTIONS='exitcode=99'))
    except subprocess.TimeoutExpired as e:
        return dict(rc=-1, crash='no end within %d s' % timeout, out=e.stdout or b'')
    crash = ''
    m = SAN.search(r.stderr)
    if m: crash = re.sub(r'0x[0-9a-f]+', '0x', m.group(1).decode('latin-1'))[:160].replace('"', "'")
    elif r.returncode < 0: crash = f'signal {-r.returncode}'
    return dict(rc=r.returncode, crash=crash, out=r.stdout)


def run_many(jobs, procs=8):
    """jobs: (exe, args, cwd[, timeout]) -> results in order; a job is run once however often it occurs"""
    uniq = {}
    for j in jobs: uniq.setdefault((j[0], tuple(j[1]), j[2], j[3] if len(j) > 3 else 60), None)
    ks = list(uniq)
    with ThreadPoolExecutor(procs) as ex:
        for k, r in zip(ks, ex.map(lambda k: run(k[0], list(k[1]), k[2], k[3]), ks)): uniq[k] = r
    return [uniq[(j[0], tuple(j[1]), j[2], j[3] if len(j) > 3 else 60)] for j in jobs]


def document(r):
    """what a run printed, transcribed: kind 'usage', 'json' or 'other'"""
    out = r['out']
    d = {'rc': r['rc'], 'crash': r['crash'], 'kind': 'other', 'leaf': {'_': {'k': 'l', 't': '', 's': []}}, 'keys': ['_'], 'sats': [], 'nsats': 0, 'tree': None}
    if out.startswith(b'Usage:'): d['kind'] = 'usage'
    else:
        try:
            v = parse(out)
            d['tree'] = v
            d['kind'] = 'json'
            leaf, keys = flat(v, skip=('satellites', 'data_fields', 'geoloc_fields', 'sat_fields'))
            d['leaf'].update(leaf)
            d['keys'] = keys or ['_']
            s = get(v, 'satellites')
            if s and s[0] == 'a':
                d['nsats'] = len(s[1])
                d['sats'] = [satrec(x) for x in s[1]]
        except (NotJson, RecursionError):
            pass
    return d


def satrec(x):
    """one element of the satellites array"""
    leaf, keys = flat(x)
    g = [leaf.get('geoloc.' + k, {}).get('t', '') for k in ('lat', 'lon', 'alt', 'theta')] if 'geoloc' in keys else []
    n = 0
    data = []
    while f'data.{n}' in leaf:
        data.append(leaf[f'data.{n}']['t']); n += 1
    return {'name': leaf.get('name', {}).get('s', []), 'desig': leaf.get('intl_desig', {}).get('s', []), 'norad': leaf.get('norad_n', {}).get('t', ''),
            'geo': g, 'data': data, 'keys': sorted(keys)}


def fgets_chunks(b, size):
    """the pieces fgets(buf, size) reads"""
    res = []
    i = 0
    while i < len(b):
        j = b.find(b'\n', i)
        e = len(b) if j < 0 else j + 1
        e = min(e, i + size - 1)
        res.append(b[i:e]); i = e
    return res
