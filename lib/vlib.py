"""Shared machinery: environment, quantization, event recording, TLC, verdicts."""
import os, sys, json, time, math, re, subprocess, signal, shutil, tempfile, random, contextlib, io

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
OUT = os.path.join(VERIF, 'out')

BAD = 99999999          # sentinel accepted by no specification
BIG = 90000000


def env_for_python():
    e = dict(os.environ)
    e.update(HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             JAX_PLATFORMS='cpu', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', OPENBLAS_CORETYPE='Haswell')
    if os.path.isdir('/opt/vp/cache/mpl') and os.access('/opt/vp/cache/mpl', os.W_OK):
        e['MPLCONFIGDIR'] = '/tmp/verif_mpl'
    e['PYTHONPATH'] = os.pathsep.join([os.path.join(VERIF, 'lib'),
                                       os.path.join(VERIF, 'harness')])
    return e


# --------------------------------------------------------------- quantization
def Q(x, scale=1, tol=1e-6):
    """Integer value of x*scale, or BAD if it is not one (within tol)."""
    try:
        v = float(x) * scale
    except Exception:
        return BAD
    if not math.isfinite(v):
        return BAD
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v) * 1e-3):
        return BAD
    if abs(r) >= BIG:
        return BAD
    return int(r)


def QV(x, scale=1, tol=1e-6):
    import numpy as np
    return [Q(v, scale, tol) for v in np.asarray(x).ravel()]


def QM(x, scale=1, tol=1e-6):
    import numpy as np
    return [QV(r, scale, tol) for r in np.asarray(x)]


def F(x, unit):
    """Fixed point: nearest integer number of units (any real allowed)."""
    try:
        v = float(x) / unit
    except Exception:
        return BAD
    if not math.isfinite(v):
        return BAD
    r = round(v)
    if abs(r) >= BIG:
        return BAD
    return int(r)


def FV(x, unit):
    import numpy as np
    return [F(v, unit) for v in np.asarray(x).ravel()]


# -------------------------------------------------------------- guarded calls
class CallTimeout(Exception):
    pass


class StopRun(Exception):
    """Enough calls that do not return: the recorded cases are validated, no further ones generated."""


timeouts = 0


def _alarm(signum, frame):
    raise CallTimeout()


def guard(fn, *a, limit=60, quiet=True, **k):
    """(value, None) or (None, exception name) of a call into the code under test."""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        if quiet:
            with contextlib.redirect_stdout(io.StringIO()):
                return fn(*a, **k), None
        return fn(*a, **k), None
    except CallTimeout:
        global timeouts
        timeouts += 1
        return None, 'TIMEOUT'
    except (KeyboardInterrupt, SystemExit) as e:
        return None, type(e).__name__
    except BaseException as e:
        return None, type(e).__name__
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


# ------------------------------------------------------------------- recorder
class Recorder:
    """Events of one driver; one 'begin' event per case."""

    def __init__(self, path):
        self.path = path
        self.f = open(path, 'w')
        self.case = 0
        self.n = 0
        self.samples = []
        self.keys = set()
        self.nontrivial = 0
        self.notes = {}
        self._ev = None

    def begin(self, key, nontrivial=True, **kw):
        """Start a case.  key: printable identity of the input (used for de-duplication)."""
        if timeouts >= 2 and self.case:
            raise StopRun()
        self.case += 1
        k = key if isinstance(key, str) else json.dumps(key, sort_keys=True)
        if nontrivial and k not in self.keys:
            self.nontrivial += 1
        self.keys.add(k)
        self.emit(op='begin', key=k, **kw)
        if len(self.samples) < 4:
            self.samples.append(k)

    def emit(self, **kw):
        self.n += 1
        kw['case'] = self.case
        self.f.write(json.dumps(kw) + '\n')
        self.f.flush()

    def close(self):
        self.f.close()
        json.dump(dict(cases=self.case, events=self.n, distinct=len(self.keys),
                       nontrivial=self.nontrivial, samples=self.samples, notes=self.notes),
                  open(self.path + '.meta', 'w'))


def driver_main(run):
    """Entry point of a driver: driver.py OUT TIER SEED [extra json]"""
    path, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3])
    extra = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    sys.path.insert(0, REPO)
    rec = Recorder(path)
    rng = random.Random(seed)
    import warnings
    warnings.filterwarnings('ignore')
    t0 = time.time()
    try:
        import numpy as np
        np.seterr(all='ignore')
        run(rec, tier, rng, extra)
        rec.notes['driver_s'] = round(time.time() - t0, 1)
    except StopRun:
        rec.notes['stopped'] = 'calls that do not return'
    finally:
        rec.close()


# ------------------------------------------------------------------------ TLC
TLA = '/opt/veriftools/tla'


def tlc(spec, cfg, env=None, timeout=600, workers='1', extra=(), heap='3g'):
    """Run TLC in a scratch directory; returns dict(rc, out, states, distinct)."""
    scratch = tempfile.mkdtemp(prefix='tlc_')
    try:
        for n in os.listdir(SPECS):
            if n.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPECS, n), scratch)
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss64m' % heap
        cmd = ['tlc', '-workers', workers, '-metadir', os.path.join(scratch, 'meta'),
               '-config', cfg, *extra, spec]
        try:
            p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired as ex:
            rc, out = -9, (ex.stdout or b'').decode() if isinstance(ex.stdout, bytes) else (ex.stdout or '')
        st = re.findall(r'(\d+) states generated, (\d+) distinct', out)
        gen, dist = (int(st[-1][0]), int(st[-1][1])) if st else (0, 0)
        return dict(rc=rc, out=out, states=dist, transitions=gen)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


class MachineryError(Exception):
    pass


def trim(out, n=2500):
    return '\n'.join(l for l in out.split('\n') if not re.match(r'(Parsing|Semantic processing|Linting|Picked|Computed)', l))[-n:]


def _split(path, n):
    """Split a trace file into at most n shards at case boundaries."""
    lines = open(path).read().split('\n')
    lines = [l for l in lines if l]
    starts = [i for i, l in enumerate(lines) if l.startswith('{"op": "begin"')]
    if not starts:
        return []
    n = max(1, min(n, len(starts)))
    target = len(lines) / n
    shards, cur = [], []
    bounds = starts + [len(lines)]
    for a, b in zip(bounds[:-1], bounds[1:]):
        cur.extend(lines[a:b])
        if len(cur) >= target and len(shards) < n - 1:
            shards.append(cur)
            cur = []
    if cur:
        shards.append(cur)
    return shards


def validate_traces(spec, path, consts=None, shards=6, timeout=700, heap='3g'):
    """Check all cases of a trace file against trace spec; returns rejects and counts."""
    parts = _split(path, shards)
    procs = []
    scratch = tempfile.mkdtemp(prefix='trace_')
    rejects, states, trans, outs = [], 0, 0, []
    try:
        for n in os.listdir(SPECS):
            if n.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPECS, n), scratch)
        for i, part in enumerate(parts):
            tp = os.path.join(scratch, 'shard%d.ndjson' % i)
            open(tp, 'w').write('\n'.join(part) + '\n')
            e = dict(os.environ)
            e.update(consts or {})
            e['TRACE'] = tp
            e['JAVA_TOOL_OPTIONS'] = '-Xmx%s -Xss128m' % heap
            o = open(os.path.join(scratch, 'o%d' % i), 'w+')
            p = subprocess.Popen(['tlc', '-workers', '1', '-metadir', os.path.join(scratch, 'm%d' % i),
                                  '-config', spec + '.cfg', spec + '.tla'],
                                 cwd=scratch, env=e, stdout=o, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs.append((p, o, part))
        t0 = time.time()
        for p, o, part in procs:
            try:
                p.wait(timeout=max(1, timeout - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                for q, _, _ in procs:
                    with contextlib.suppress(Exception):
                        os.killpg(q.pid, signal.SIGKILL)
                raise MachineryError('TLC timed out on ' + spec)
            o.seek(0)
            out = o.read()
            outs.append(out)
            st = re.findall(r'(\d+) states generated, (\d+) distinct', out)
            if not st and 'Starting' not in out:
                raise MachineryError('TLC failed on %s:\n%s' % (spec, trim(out)))
            if st:
                states += int(st[-1][1])
                trans += int(st[-1][0])
            rj = re.findall(r'<<"REJECT", (-?\d+), (-?\d+), "([^"]*)">>', out)
            for c, l, why in rj:
                rejects.append((int(c), int(l), why, part))
            if re.search(r'(Overflow when computing|Attempted to|evaluat|was not in the domain|CHOOSE)', out) \
                    and 'No error has been found' not in out:
                # the recorded values leave the domain of the specification
                rejects.append((json.loads(part[0])['case'], 0, 'values outside the domain of the specification: '
                                + trim(out, 600).replace('"', "'"), part))
                continue
            if p.returncode != 0 or 'No error has been found' not in out:
                raise MachineryError('TLC did not accept the run of %s:\n%s' % (spec, trim(out)))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return dict(rejects=rejects, states=states, transitions=trans, cases=sum(
        1 for pt in parts for l in pt if l.startswith('{"op": "begin"')), outs=outs)


# -------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, 'known-findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) clause=(\S+) (.*)', l.strip())
            if m:
                res.append(m.groups())
    return res
