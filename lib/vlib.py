"""Shared machinery of the checks: running Jython drivers against /repo, running TLC, collecting verdicts,
evidence and known findings.  Every check is a module of /verif/checks with a function run(ctx)."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VQ_REPO', '/repo')      # (another tree only while developing)
NCPU = min(8, os.cpu_count() or 2)
JARS = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar']


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


class CodeFailure(Exception):
    """The code under test made the driver fail (an exception that started in /repo, or no end)."""
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key = key


class Ctx(object):
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.quick = self.tier != 'thorough'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.rng = random.Random('%s/%s' % (pid, self.seed))
        self.out = os.path.join(VERIF, 'out', pid)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.work = tempfile.mkdtemp(prefix='vq-%s-' % pid)
        os.chmod(self.work, 0o755)
        self.violations = []      # (key, description, data)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.t0 = time.time()
        self.phases = []

    # ---------------------------------------------------------------- files
    def path(self, name):
        p = os.path.join(self.work, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write_json(self, name, obj):
        p = self.path(name)
        with open(p, 'w') as f:
            json.dump(obj, f)
        return p

    def write_lines(self, name, objs):
        p = self.path(name)
        with open(p, 'w') as f:
            for o in objs:
                f.write(json.dumps(o) + '\n')
        return p

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def note(self, msg):
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, msg))
        sys.stdout.flush()

    # ------------------------------------------------------------- findings
    def violate(self, key, what, data=None):
        """key identifies the failing input / history / call site (used to match known findings)."""
        self.violations.append((key, what, data))

    def sample(self, x):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(x)

    def count(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    # --------------------------------------------------------------- jython
    def jython(self, script, args=(), stdin=None, timeout=800, mem='2g', c2=False, env=None, check=True, extra_path=(), extra_cp=()):
        J = '/usr/share/java'
        e = {k: v for k, v in os.environ.items() if k not in ('JAVA_TOOL_OPTIONS', 'CLASSPATH', 'JYTHONPATH', 'PYTHONPATH')}
        e['LC_ALL'] = 'C.UTF-8'
        e['TZ'] = 'UTC'
        e['JYTHONPATH'] = ':'.join([os.path.join(REPO, 'pyslet'), os.path.join(VERIF, 'drivers')] + list(extra_path)
                                   + ['/opt/vp/jython/site'])
        e['VQ_REPO'] = REPO
        e['HOME'] = self.work
        e['TMPDIR'] = self.work
        if env:
            e.update(env)
        cmd = ['/usr/bin/java', '-Xss16m', '-Xmx' + mem]
        cmd += [] if c2 else ['-XX:TieredStopAtLevel=1']
        cmd += ['-XX:+UseSerialGC', '-Djava.net.preferIPv4Stack=true', '-Djava.io.tmpdir=' + self.work,
                '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true', '-cp',
                ':'.join('%s/%s.jar' % (J, n) for n in ('jython', 'bcprov', 'bcpkix', 'bcutil')) + ':/opt/vp/jython' + ''.join(':' + x for x in extra_cp),
                'org.python.util.jython', '-B', os.path.join(VERIF, 'drivers', script)] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=self.work,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as x:
            if timeout < 200:
                raise MachineryError('driver %s timed out after %ss' % (script, timeout))
            raise CodeFailure('no-end:%s' % script, 'driver %s did not end within %ss (it takes seconds on working code): %s'
                              % (script, timeout, (x.stdout or b'')[-2000:]))
        if check and r.returncode != 0:
            fr = re.findall(r'^  File "([^"]*)"', r.stdout, re.M)
            if fr and fr[-1].startswith(REPO + '/'):
                raise CodeFailure('exception:%s' % script, 'driver %s: the code under test failed:\n%s' % (script, r.stdout[-3000:]))
            raise MachineryError('driver %s failed (%s):\n%s' % (script, r.returncode, r.stdout[-6000:]))
        return r

    def drive(self, script, recs, args=(), c2=True, parts=NCPU, **kw):
        """Gives the records to a line-by-line driver (script ARGS IN OUT) in parallel processes; returns its records in order."""
        parts = max(1, min(parts, len(recs)))
        ps = [recs[i::parts] for i in range(parts)]

        def one(i):
            f = self.write_lines('%s-in%d.ndjson' % (script, i), ps[i])
            o = self.path('%s-out%d.ndjson' % (script, i))
            self.jython(script, list(args) + [f, o], c2=c2, **kw)
            with open(o) as fo:
                got = [json.loads(l) for l in fo]
            if len(got) != len(ps[i]):
                raise MachineryError('driver %s answered %d of %d records' % (script, len(got), len(ps[i])))
            return got
        res = [None] * len(recs)
        for i, got in enumerate(self.parallel([lambda i=i: one(i) for i in range(parts)])):
            res[i::parts] = got
        return res

    def judge(self, spec_dir, module, recs, env=None, cfg='INIT Init\nNEXT Next\nINVARIANT Judge\n', what='traces_validated_against_impl', **kw):
        """TLC judges the records (VQ_LOG); yields (verdict, record), the verdict's 'bad' being the index of a refused record or 0."""
        e = dict(env or {})
        e['VQ_LOG'] = self.write_lines('judge-%s-%d.ndjson' % (module, len(self.phases)), recs)
        self.phases.append(module)
        r = self.tlc(spec_dir, module, cfg, env=e, **kw)
        if len(r['out']) != len(recs):
            raise MachineryError('%s judged %d of %d records:\n%s' % (module, len(r['out']), len(recs), tail(r['log'])))
        self.count(what, len(recs))
        if recs:
            self.sample(json.loads(json.dumps(recs[-1])) if len(json.dumps(recs[-1])) < 3000 else str(recs[-1])[:1500])
        return [(x, recs[x['bad'] - 1] if x['bad'] else None) for x in r['out']]

    def javac(self, name):
        """compiles drivers/java/<name>.java; returns a directory for extra_cp"""
        d = self.path('classes/x')
        d = os.path.dirname(d)
        r = subprocess.run(['javac', '-nowarn', '-cp', '/usr/share/java/jython.jar', '-d', d,
                            os.path.join(VERIF, 'drivers', 'java', name + '.java')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError('javac: ' + r.stdout)
        return d

    def parallel(self, fns, workers=NCPU):
        """Runs the callables concurrently; returns their results in order."""
        with ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(f) for f in fns]
            return [f.result() for f in fs]

    # ------------------------------------------------------------------ TLC
    def tlc(self, spec_dir, module, cfg, env=None, workers=NCPU, timeout=800, mem='6g', simulate=None, modules=(), count=True,
            allow_violation=False, dfid=None):
        """Runs TLC on specs/<spec_dir>/<module>.tla with the given configuration text.  Returns a dict with the
        PrintT'ed JSON values (out), states generated/distinct, and the violated invariant (or None)."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        for sd in [spec_dir] + list(modules):
            sp = os.path.join(VERIF, 'specs', sd)
            for f in os.listdir(sp):
                if f.endswith('.tla'):
                    shutil.copy(os.path.join(sp, f), d)
        with open(os.path.join(d, 'M.cfg'), 'w') as f:
            f.write(cfg)
        e = {k: v for k, v in os.environ.items() if k not in ('JAVA_TOOL_OPTIONS', 'CLASSPATH')}
        if env:
            e.update({k: str(v) for k, v in env.items()})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + mem, '-cp', ':'.join(JARS), 'tlc2.TLC', '-config', 'M.cfg',
               '-metadir', os.path.join(d, 'meta'), '-workers', str(workers), '-noGenerateSpecTE', '-deadlock']
        if simulate:
            cmd += ['-simulate', simulate[0], '-depth', str(simulate[1]), '-seed', str(self.seed)]
        cmd += [module + '.tla']
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d, timeout=timeout, text=True,
                               errors='replace')
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s timed out after %ss' % (module, timeout))
        res = parse_tlc(r.stdout)
        res['rc'] = r.returncode
        res['log'] = r.stdout
        shutil.rmtree(d, ignore_errors=True)
        if res['violated'] is None and (r.returncode != 0 or (not simulate and not res['finished'])):
            raise MachineryError('TLC on %s failed (rc %s):\n%s' % (module, r.returncode, tail(r.stdout)))
        if res['violated'] is not None and not allow_violation:
            raise MachineryError('the specification %s violates its own %s:\n%s' % (module, res['violated'], tail(r.stdout)))
        if count:
            self.cov['states'] += res['distinct']
            self.cov['transitions'] += res['generated']
        return res


def tail(s, n=5000):
    lines = [l for l in s.splitlines() if not l.startswith('"')]
    return '\n'.join(lines)[-n:]


def parse_tlc(text):
    out = []
    violated = None
    generated = distinct = 0
    finished = False
    for line in text.splitlines():
        if line.startswith('"') and line.endswith('"'):
            s = line[1:-1]
            if '\\' in s:
                s = s.replace('\\"', '"').replace('\\\\', '\\')
            try:
                out.append(json.loads(s))
            except ValueError:
                raise MachineryError('cannot read TLC output line: ' + line[:400])
            continue
        m = re.match(r'Error: (Invariant|Action property|Temporal properties|Property) ?(\S*) ?(is|were) violated', line)
        if m:
            violated = m.group(2) or m.group(1)
        m = re.match(r'(\d+) states generated, (\d+) distinct states found', line)
        if m:
            generated, distinct = int(m.group(1)), int(m.group(2))
        m = re.match(r'Progress: (\d+) states checked', line) or re.match(r'The number of states generated: (\d+)', line)
        if m:
            generated = int(m.group(1))
        if line.startswith('Model checking completed. No error') or line.startswith('Finished in'):
            finished = True
    return {'out': out, 'violated': violated, 'generated': generated, 'distinct': distinct, 'finished': finished}


def code(s):
    return [ord(c) for c in s]


def uncode(a):
    return ''.join(chr(c) for c in a)


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:12]
