"""Shared machinery of the checks: builds of the code under test, the library
driver, TLC runs, evidence and verdicts.  The deciding is done by TLC on the
modules in /verif/spec; nothing here judges an output."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
TLAJARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ENV = dict(os.environ, LC_ALL='C', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
for k in ('JAVA_TOOL_OPTIONS', 'ASAN_OPTIONS', 'UBSAN_OPTIONS', 'CFLAGS', 'MAKEFLAGS'):
    ENV.pop(k, None)


class CheckError(Exception):
    """The check could not be carried out (not a verdict)."""


def hx(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return b.hex() or '-'


def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)


def bl(b):
    """bytes as the sequence of numbers the specification works on"""
    if isinstance(b, str):
        b = b.encode('latin-1')
    return list(b)


def printed(text, tag):
    """what PrintT(<<tag, ...>>) printed, on one line each, without the tag"""
    res = []
    for m in re.finditer(r'^<<\s*"' + tag + r'",\s*', text, re.M):
        i, depth = m.end(), 1
        j = i
        while depth:
            if text.startswith('<<', j): depth += 1; j += 2
            elif text.startswith('>>', j): depth -= 1; j += 2
            elif text[j] == '"': j = text.index('"', j + 1) + 1
            else: j += 1
        res.append(re.sub(r'\s+', ' ', text[i:j - 2]).strip())
    return res


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(f'{prop}-{self.seed}')
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'vp_{prop}_')
        atexit.register(self.cleanup)
        self.builds, self.parts, self.violations, self.known_hits = {}, [], [], []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self._cls = None
        self.notes = []

    def cleanup(self):
        if os.path.basename(self.dir).startswith('vp_'):
            shutil.rmtree(self.dir, ignore_errors=True)

    def budget(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------ code under test
    def src(self):
        d = os.path.join(self.dir, 'tree')
        if not os.path.isdir(d):
            ign = shutil.ignore_patterns('*.o', '*.a', '*.so', 'sat_skymap', 'sat_visibility', 'mjdnow', '.git')
            for sub in ('src', 'HealpixC', 'scripts'):
                shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub), ignore=ign)
        return d

    def build(self, variant='plain'):
        """A complete build of /repo's working tree with the project's own Makefiles."""
        if variant in self.builds:
            return self.builds[variant]
        d = os.path.join(self.dir, 'b_' + variant)
        shutil.copytree(self.src(), d)
        cc = {'plain': 'gcc',
              'asan': 'gcc -fsanitize=address,undefined -fno-sanitize=float-cast-overflow,float-divide-by-zero -fno-sanitize-recover=undefined -fno-omit-frame-pointer',
              'pattern': 'gcc -ftrivial-auto-var-init=pattern',
              'zero': 'gcc -ftrivial-auto-var-init=zero',
              'msan': 'clang -fsanitize=memory -fno-omit-frame-pointer -O1'}[variant]
        for goal in (['lib', 'libso', 'libhpx'] if variant not in ('msan',) else ['lib', 'libhpx'], ['exe']):
            r = subprocess.run(['make', '-j8', 'CC=' + cc] + goal, cwd=d + '/src', env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            if r.returncode:
                raise CheckError(f'build {variant} failed: ' + r.stdout.decode('latin-1')[-1500:])
        self.builds[variant] = d
        return d

    def tool(self, name, variant='plain'):
        return os.path.join(self.build(variant), 'src', name)

    def driver(self, variant='plain'):
        d = self.build(variant)
        exe = os.path.join(d, 'driver')
        if not os.path.exists(exe):
            extra = {'asan': ['-fsanitize=address,undefined'], 'pattern': ['-ftrivial-auto-var-init=pattern'], 'msan': ['-fsanitize=memory']}.get(variant, [])
            cc = 'clang' if variant == 'msan' else 'gcc'
            r = subprocess.run([cc, '-g', '-O1', *extra, '-I' + d + '/src', '-I' + d + '/HealpixC', os.path.join(VERIF, 'harness/lib.c'),
                                '-o', exe, d + '/src/libsatskymap.a', d + '/HealpixC/libchealpix.a', '-lm'], env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('driver: ' + r.stdout.decode('latin-1')[-1500:])
        return exe

    def fits_driver(self):
        d = os.path.join(self.dir, 'b_fits')
        exe = d + '/fits'
        if not os.path.exists(exe):
            h = self.src() + '/HealpixC'
            os.makedirs(d, exist_ok=True)
            r = subprocess.run(['make', '-C', d, '-f', h + '/Makefile', '--eval=vpath %.c ' + h, 'CC=gcc', 'OPT=-O2', 'test_chealpix'],
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('FITS build: ' + r.stdout.decode('latin-1')[-1500:])
            lib = next((os.path.join(d, f) for f in os.listdir(d) if f.endswith('.a')), None)
            r = subprocess.run(f'gcc -g -O1 -I{h} {VERIF}/harness/fits.c -o {exe} {lib} -lcfitsio -lm', shell=True, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('FITS driver: ' + r.stdout.decode('latin-1')[-1500:])
        return exe

    def calls(self, cmds, variant='plain', timeout=300, procs=8):
        """Run driver commands; each is a string, the answers come back as token lists.
        A list of strings is a session: its commands run in one process, in order.
        A call that kills the driver answers ['crash', what]."""
        exe = self.driver(variant)
        sessions = [c if isinstance(c, list) else [c] for c in cmds]
        n = max(1, min(procs, len(sessions) // 20 + 1))
        parts = [sessions[i::n] for i in range(n)]

        def run(part):
            res, todo = [], list(part)
            while todo:
                flat = [c for s in todo for c in s]
                try:
                    r = subprocess.run([exe], input=('\n'.join(flat) + '\n').encode('latin-1'), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                       timeout=timeout, env=dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=1'))
                    out, rc, err = r.stdout, r.returncode, r.stderr
                except subprocess.TimeoutExpired as e:
                    out, rc, err = e.stdout or b'', 'timeout', b''
                if rc == 3:
                    raise CheckError('driver protocol: ' + err.decode('latin-1')[-300:])
                lines = out.decode('latin-1').split('\n')
                complete = lines[:-1]
                k = 0
                for si, s in enumerate(todo):
                    if k + len(s) <= len(complete):
                        res.append([x.split() for x in complete[k:k + len(s)]])
                        k += len(s)
                    else:
                        if rc == 0:
                            raise CheckError('driver: short answer')
                        got = [x.split() for x in complete[k:]]
                        m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|WARNING: MemorySanitizer[^\n]*)', err.decode('latin-1'))
                        why = m.group(1) if m else f'rc={rc}'
                        got += [['crash', why.replace(' ', '_')]] * (len(s) - len(got))
                        res.append(got)
                        todo = todo[si + 1:]
                        break
                else:
                    todo = []
            return res
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(run, parts))
        outs = [None] * len(sessions)
        for i in range(n):
            for j, r in enumerate(rs[i]):
                outs[i + j * n] = r
        return [o if isinstance(c, list) else o[0] for o, c in zip(outs, cmds)]

    # ------------------------------------------------------------------------ TLC
    def classes(self):
        if self._cls is None:
            d = os.path.join(self.dir, 'cls')
            os.makedirs(d)
            r = subprocess.run(['javac', '-nowarn', '-cp', TLAJARS, '-d', d] + [os.path.join(VERIF, 'java', f) for f in os.listdir(VERIF + '/java') if f.endswith('.java')],
                               env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CheckError('javac: ' + r.stdout.decode()[-1000:])
            self._cls = d
        return self._cls

    def tlc(self, module, cfg=None, env=None, workers=8, timeout=840, args=(), heap='8g', tag=None):
        """Run TLC on spec/<module>.tla.  Returns (ok, text); ok False means an invariant or property was violated."""
        meta = tempfile.mkdtemp(prefix='tlc_', dir=self.dir)
        cmd = ['java', '-Xss64m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta,
               '-Dtlc2.overrides.TLCOverrides=Ov:tlc2.overrides.TLCOverrides', '-cp', self.classes() + ':' + TLAJARS,
               'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta, '-config', os.path.join(SPEC, cfg or module + '.cfg'), *args,
               os.path.join(SPEC, module + '.tla')]
        if '-deadlock' not in args:
            cmd.insert(-1, '-deadlock')
        cmd.insert(1, '-Dtlc2.tool.queue.DiskStateQueue.BufSize=4000000')   # no spilling of the queue: its writer thread can hang
        for limit in ((300, 420) if not self.thorough else (timeout, timeout)):
            try:
                r = subprocess.run(cmd, cwd=meta, env=dict(ENV, PROP=self.prop, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit)
                break
            except subprocess.TimeoutExpired as e:
                late = (e.stdout or b'').decode('latin-1')[-500:]
                shutil.rmtree(meta, ignore_errors=True)
                os.makedirs(meta)
        else:
            raise CheckError(f'TLC {module}: timeout: ' + late)
        text = re.sub(r'(Semantic processing of module[^\n]*\n|\*\*\* Warnings: .*?\n\n\n\n)', '', r.stdout.decode('latin-1'), flags=re.S)
        shutil.rmtree(meta, ignore_errors=True)
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', text)
        if m:
            self.transitions += int(m[-1][0].replace(',', ''))
            self.states += int(m[-1][1].replace(',', ''))
        if r.returncode in (12, 13) or re.search(r'Invariant \w+ is violated|Temporal properties were violated|Action property', text):
            return False, text
        if r.returncode == 0 and 'No error has been found' in text:
            return True, text
        raise CheckError(f'TLC {module} rc={r.returncode}: ' + (text if os.environ.get('VPFULL') else text[-3000:]))

    def design(self, module, cfg=None, env=None, fails=False, **kw):
        """Exhaustive check of a design model: a violation there is a defect of the specification, not of the code.
        fails: the guarantee must be lost in this configuration (a guard of the design is left out)."""
        ok, text = self.tlc(module, cfg, env=env, **kw)
        if fails:
            if ok:
                raise CheckError(f'design model {module}/{cfg}: the guarantee does not depend on what this configuration leaves out')
            self.parts.append({'part': f'design model {cfg or module}: guarantee lost, as it must be'})
            return text
        if not ok:
            raise CheckError(f'design model {module}/{cfg}: ' + (text if os.environ.get('VPFULL') else text[-3000:]))
        m = re.findall(r'([\d,]+) states generated.*?([\d,]+) distinct states found', text)
        self.parts.append({'part': f'design model {cfg or module}', 'states': int(m[-1][1].replace(',', '')) if m else 0})
        return text

    def conform(self, module, obs, what, rerun=None, **kw):
        """Validate recorded observations against a trace specification.
        obs: list of dicts with an 'id'.  Each rejected observation becomes a violation, after its
        scenario was run again and rejected again when rerun is given."""
        if not obs:
            return []
        n_obs, t0 = len(obs), time.time()
        bad = self._judge(module, obs, **kw)
        if os.environ.get('VPTIME'):
            print(f'[{what}: {n_obs} observations made by {t0 - self.t0:.1f} s, judged in {time.time() - t0:.1f} s]', file=sys.stderr)
        if bad and rerun:
            ids = sorted({b['id'] for b in bad})[:12]
            again = [o for i in ids for o in rerun(i)]
            bad2 = self._judge(module, again, **kw)
            keep = {b['id'] for b in bad2}
            bad = [b for b in bad2 if b['id'] in keep]
            obs = again
        self.parts.append({'part': what, 'observations': n_obs})
        self.traces += n_obs
        for o in (obs[0], obs[len(obs) // 2]):
            t = json.dumps(o)
            self.samples.append({'part': what, 'trace': t if len(t) < 1500 else t[:1500] + '...'})
        by = {o['id']: o for o in obs}
        for b in bad:
            self.violate(b['why'], dict(what=what, module=module, observation=by.get(b['id']), **b))
        return bad

    def _judge(self, module, obs, cfg=None, env=None, brief=False, **kw):
        """brief: long behaviours, of which TLC is not to print the states; the verdict is what the steps report"""
        if brief:
            text = open(os.path.join(SPEC, cfg or module + '.cfg')).read()
            cfg = os.path.join(self.dir, f'{module}_brief.cfg')
            with open(cfg, 'w') as fh:
                fh.write(re.sub(r'(?m)^INVARIANTS? .*$', '', text) + '\nVIEW Brief\n')
        f = os.path.join(self.dir, f'trace_{module}_{len(self.parts)}_{time.time_ns()}.ndjson')
        with open(f, 'w') as fh:
            for o in obs:
                fh.write(json.dumps(o, separators=(',', ':')) + '\n')
        ok, text = self.tlc(module, cfg, env=dict(TRACE=f, **(env or {})), args=('-continue',), **kw)
        bad = []
        for m in re.finditer(r'<<\s*"VPBAD",\s*"([^"]*)",\s*"([^"]*)",\s*(.*?)\s*>>', text, re.S):
            if m.group(1) == self.prop or m.group(1) == '*':
                bad.append({'id': m.group(2), 'why': m.group(3)[:300].strip('"')})
        m = re.search(r'<<\s*"VPDONE", (\d+)>>', text)
        seen = set()
        bad = [b for b in bad if not ((b['id'], b['why']) in seen or seen.add((b['id'], b['why'])))]
        if (ok and bad or (not ok and not bad)) and not brief:
            raise CheckError(f'TLC {module}: verdict and report disagree: ' + text[-2500:])
        os.unlink(f)
        return bad

    # -------------------------------------------------------------------- verdict
    def violate(self, why, replay):
        self.violations.append((why, replay))

    def known(self):
        res = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'finding: property=(\w+) key=(\S+) (.*)', l)
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3).strip()))
        return res

    def finish(self, level='model_checking', sampled=None):
        known = self.known()
        new = []
        hits = {}
        for why, rep in self.violations:
            k = next((k for k, _ in known if rep.get('key') == k), None)
            if k:
                hits[k] = why
            else:
                new.append((why, rep))
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        for k, t in known:
            print(f'KNOWN-FINDING: property={self.prop} {t}')
        for f in os.listdir(VERIF + '/evidence'):
            if f.startswith(f'{self.prop}_replay_'):
                os.unlink(f'{VERIF}/evidence/{f}')
        for i, (why, rep) in enumerate(new[:5]):
            path = f'{VERIF}/evidence/{self.prop}_replay_{i + 1}.json'
            json.dump(rep, open(path, 'w'), indent=1, default=str)
            print(f'  {why}')
            print(f'VIOLATION property={self.prop} replay={path}')
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces, 'samples': self.samples[:8], 'parts': self.parts},
              'wall_s': round(time.time() - self.t0, 1), 'violations': len(new)}
        if self.notes:
            ev['notes'] = '; '.join(self.notes)
        json.dump(ev, open(f'{VERIF}/evidence/{self.prop}.json', 'w'), indent=1)
        print(f'{self.prop} {self.tier}: {len(new)} violations, {self.traces} traces, {self.states} states, {time.time() - self.t0:.1f} s')
        return 1 if new else 0
