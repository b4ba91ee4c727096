"""Continuation loop driven by a scripted (fault-injecting) solver.  C01, C02."""
import json, copy, io, contextlib
from vlib import *
import numpy as np

U = 2.0 ** -20


def run(rec, tier, rng, extra):
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver

    class Script(NonlinearSolver):
        """Solver whose outcomes are dictated; observes every request."""

        def arm(self, driver):
            self.d = driver

        def nsolve(self, fun, X0, verbose=True, xtol=None):
            return self.d.solve(fun, np.asarray(X0), verbose, xtol)

    class Run:
        def __init__(self, emit, script, cfg, lam0, rs, start):
            self.emit, self.script, self.cfg, self.rs = emit, list(script), cfg, rs
            self.lam0, self.seen, self.points, self.k = lam0, [], [], 0
            self.A = np.array([[2.0, 0.5], [-0.25, 1.5]])
            self.prev = None
            self.lastdir = None
            self.weights = [cfg['FracLam']] + [w for i, w in enumerate(cfg['FracLamList'])
                                               if not (i == 0 and w == cfg['FracLam'])]
            self.pid = 0
            self.curlam = lam0
            self.exhausted = False

        # the problem being followed (its solutions are irrelevant: the solver is scripted)
        def fun(self, Xlam, calc_grad=True):
            Xlam = np.asarray(Xlam)
            self.seen.append(np.array(Xlam, dtype=float))
            x, lam = Xlam[:-1], Xlam[-1]
            R = self.A @ x + 0.125 * x ** 2 - np.array([1.0, 0.5]) * lam
            if not calc_grad:
                return (R,)
            return R, self.A + 0.25 * np.diag(x), -np.array([1.0, 0.5])

        def newpoint(self, lam):
            x = self.rs.choice([-1, 1], 2) * self.rs.uniform(0.5, 2.0, 2)
            p = np.hstack((x, lam))
            self.points.append(p)
            return p, len(self.points)

        def find(self, p, upto=None):
            p = np.asarray(p, dtype=float)
            if p.shape != (3,):
                return -1
            if np.all(np.isnan(p)):
                return 0
            for i in range(len(self.points) - 1, -1, -1):
                if np.allclose(p, self.points[i], rtol=1e-9, atol=1e-12):
                    return i + 1
            return -1

        def solve(self, fun, X0, verbose, xtol):
            sett = bool(xtol == self.cfg['xtol'] and verbose == self.cfg['nsolve_verbose'])
            n0 = len(self.seen)
            Rc = np.asarray(fun(X0)[0])
            phys = self.seen[n0]
            first = X0.shape[0] == 2
            ev = self.script.pop(0) if self.script else dict(ok=False, n=1, m=0)
            if len(self.script) == 0:
                self.k += 1
                if self.k > 60:
                    raise RuntimeError('runaway')
            n = ev['n']
            sol = {'message': 'scripted', 'nfev': n, 'njev': 1, 'success': bool(ev['ok'])}
            if first:
                # scaling under which the start problem is presented, in units of 1/64
                R = self.fun(phys, False)[0]
                ccol, crow = FV(phys[:-1] / X0, 2.0 ** -6), FV(Rc / R, 2.0 ** -6)
                if ev['ok']:
                    p, pid = self.newpoint(self.lam0)
                    self.emit(op='init', ok=True, p=pid, atlam0=bool(phys[-1] == self.lam0), settings=sett,
                              ccol=ccol, crow=crow)
                    self.prev = p
                    C = phys[:-1] / X0
                    return p[:-1] / C, np.zeros(2), np.eye(2), sol
                self.emit(op='init', ok=False, p=0, atlam0=bool(phys[-1] == self.lam0), settings=sett, ccol=ccol, crow=crow)
                return X0 * 3 + 1, np.ones(2), np.eye(2), sol
            C = phys / X0
            if self.prev is None:
                self.prev = phys * 0 + 1
            if extra.get('FOCUS') == 'C03':
                d = (phys - self.prev) / C
                d = d / np.linalg.norm(d)
                ch = (np.array([0.0, 0.0, self.dir]) if len(self.points) < 2 else self.points[-1] - self.points[-2]) / C
                ch = ch / np.linalg.norm(ch)
                _, JX, Jl = self.fun(self.prev)
                J = np.column_stack((JX, Jl)) * C
                rec.emit(op='try', xc0=FV(self.prev / C, 1e-3), dir=FV(d, 1e-3), chord=FV(ch, 1e-3), first=len(self.points) < 2,
                         tan=FV(J @ d / np.linalg.norm(J), 1e-3), bns=[round(8 * w) for w in self.weights])
            dC = (phys - self.prev) / C
            xc = self.prev[:-1] / C[:-1]
            ds = [F(np.sqrt((1 - w) / (xc @ xc) * (dC[:-1] @ dC[:-1]) + w * dC[-1] ** 2), U)
                  for w in self.weights]
            self.lastdir = phys - self.prev
            if ev['ok']:
                self.curlam += ev['m'] * self.dir * self.lamunit
                lam = self.curlam
                if np.frexp(C[-1])[0] != 0.5:
                    # the scaling rounds: a value met exactly (end, backtracking limit) would be decided by rounding
                    lam += 1e-7 * self.dir * (1 if self.dir * (lam - self.lam0) >= 0 else -1)
                p, pid = self.newpoint(lam)
                self.emit(op='attempt', ok=True, n=n, ds=ds, p=pid, lam=Q(self.curlam, 8), settings=sett)
                self.prev = p
                return p / C, np.zeros(3), np.eye(3), sol
            self.emit(op='attempt', ok=False, n=n, ds=ds, p=0, lam=0, settings=sett)
            bad = X0 * 7 - 3 if ev['n'] % 2 else X0 * np.nan
            return bad, np.ones(3), np.eye(3), sol

        def callback(self, XlamP, dirP):
            XlamP, dirP = np.asarray(XlamP, dtype=float), np.asarray(dirP, dtype=float)
            dok = True
            if self.lastdir is not None and not np.any(np.isnan(dirP)) and dirP.shape == (3,):
                a, b = dirP / np.linalg.norm(dirP), self.lastdir / np.linalg.norm(self.lastdir)
                dok = bool(np.linalg.norm(a - b) < 1e-6)
            self.emit(op='cb', p=self.find(XlamP), dirnan=bool(np.any(np.isnan(dirP))), dirok=dok)

    def execute(cases, key, setup, quiet=False):
        """cases: list of scripts run one after another on one Continuation object."""
        cfg = setup['cfg']
        solver = Script()
        user = copy.deepcopy(cfg)
        CtoP, RPtoC = setup['CtoP'], setup['RPtoC']
        C0 = None if CtoP is None else np.array(CtoP)
        P0 = None if RPtoC is None else np.array(RPtoC)
        hold = {}
        if setup['hascb']:
            user['callback'] = lambda a, b: hold['run'].callback(a, b)
        before = copy.copy(user)
        before['FracLamList'] = list(user['FracLamList'])
        if setup['shared_list']:
            user['FracLamList'] = setup['shared_list']
            before['FracLamList'] = list(setup['shared_list'])
        given = user
        if setup['reuse']:                          # the caller goes on with the same dictionary and arrays
            given = dict(user)
        Cg = C0.copy() if setup['reuse'] and C0 is not None else C0
        obj, exc = guard(Continuation, solver, 0.25, Cg, P0, given)
        if setup['reuse']:
            given.update(ds0=cfg['ds0'] * 2, dsmin=cfg['dsmax'] / 2, MaxSteps=cfg['MaxSteps'] + 1, callback=None, FracLam=0.9, backtrackStop=0.0)
            if Cg is not None:
                Cg *= 3.0
        results = []
        for ci, (script, seed) in enumerate(cases):
            rs = np.random.RandomState(seed)
            emit = (lambda **k: None) if quiet or extra.get('FOCUS') == 'C03' else rec.emit
            r = Run(emit, script, before, setup['lam0'], rs, None)
            r.dir, r.lamunit = setup['dir'], setup['lamunit']
            nw = len(r.weights)
            g = lambda k: F(cfg[k], U)
            c = dict(ds0=g('ds0'), dsmin=g('dsmin'), dsmax=g('dsmax'), maxsteps=cfg['MaxSteps'],
                     target=cfg['TargetNfev'], incN=setup['inc'][0], incD=setup['inc'][1], nw=nw,
                     dir=setup['dir'], lam0=Q(setup['lam0'], 8), lam1=Q(setup['lam1'], 8),
                     back=(10 ** 7 if np.isinf(cfg['backtrackStop']) else Q(cfg['backtrackStop'], 8)),
                     hascb=setup['hascb'], silent=cfg['verbose'] < 0, tol=3,
                     ccol=FV(np.ones(2) if CtoP is None else np.abs(CtoP)[:2], 2.0 ** -6),
                     crow=FV((1.0 if RPtoC is None else np.atleast_1d(RPtoC)) * np.ones(3), 2.0 ** -6)[:2])
            if extra.get('FOCUS') == 'C03':
                rec.begin([key, ci, setup['name']], nontrivial=len(script) > 2, pos=0)
            elif not quiet:
                rec.begin([key, ci, setup['name']], nontrivial=len(script) > 1, c=c)
            hold['run'] = r
            if exc is not None:
                emit(op='exc', exc=exc)
                continue
            solver.arm(r)
            X0 = np.array([1.25, -0.75, 99.0])
            Xc = X0.copy()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                res, ex = guard(obj.continuation, r.fun, X0, setup['lam0'], setup['lam1'],
                                quiet=False, limit=30)
            if ex is not None:
                emit(op='exc', exc=ex)
                results.append(ex)
            else:
                res = np.asarray(res)
                ps = [r.find(row) for row in res] if res.ndim == 2 else [-1]
                emit(op='ret', ps=ps)
                results.append(res)
            if not quiet:
                same = True
                if setup['compare']:
                    alt = dict(setup)
                    alt['compare'] = False
                    alt['cfg'] = dict(cfg, verbose=setup['altverbose'])
                    alt['shared_list'] = None
                    r2 = execute(cases[:ci + 1], key, alt, quiet=True)[-1]
                    same = type(r2) == type(results[-1]) and bool(np.array_equal(r2, results[-1]))
                    hold['run'] = r
                    solver.arm(r)
                after = dict(user)
                changed = (set(after) != set(before)) or any(
                    (list(after[k]) != list(before[k])) if k == 'FracLamList' else (after[k] is not before[k] and after[k] != before[k])
                    for k in before)
                argch = not np.array_equal(X0, Xc) or \
                    (C0 is not None and not np.array_equal(C0, CtoP)) or \
                    (P0 is not None and not np.array_equal(P0, RPtoC))
                emit(op='end', cfgchanged=bool(changed), argchanged=bool(argch),
                     out=bool(out.getvalue()), same=same)
        return results

    def setup_of(c=None):
        """A full configuration; c = abstract configuration of the model, or random."""
        lists = [[], [0.25], [0.5, 0.25], [0.75, 0.25, 0.875], [0.25, 0.5]]
        s = dict(dir=rng.choice([1, -1]), hascb=rng.random() < 0.85, lamunit=0.125 * rng.choice([1, 2, 4]),
                 lam0=rng.choice([0.0, 1.5, -2.25]), shared_list=None, compare=rng.random() < 0.15,
                 reuse=rng.random() < 0.25)
        cfg = dict(FracLam=rng.choice([0.5, 0.25, 0.75]), FracLamList=rng.choice(lists),
                   verbose=rng.choice([-1, -3, 0, 1, 2, 100]), xtol=rng.choice([None, 1e-7]),
                   nsolve_verbose=rng.choice([False, True]), corrector=rng.choice(['Ortho', 'Pseudo', 'ortho']),
                   DynamicCtoP=rng.random() < 0.4, backtrackStop=np.inf)
        s['altverbose'] = rng.choice([v for v in (-1, 0, 1, 3) if v != cfg['verbose']])
        if c is not None:
            k = 1.0 / 64
            s['dir'], s['hascb'] = c['dir'], bool(c['hascb'])
            s['lam1'] = s['lam0'] + c['lam1'] * s['lamunit']
            cfg.update(ds0=c['ds0'] * k, dsmin=c['dsmin'] * k, dsmax=c['dsmax'] * k, MaxSteps=c['maxsteps'],
                       TargetNfev=c['target'], MaxIncrease=c['incN'] / c['incD'],
                       backtrackStop=c['back'] * s['lamunit'] if c['back'] < 1000 else np.inf)
            s['inc'] = (c['incN'], c['incD'])
            cfg['FracLamList'] = [0.375] if c['nw'] == 2 else []
        else:
            dsmin = rng.choice([1, 2, 5, 7, 16]) / 64
            ds0 = dsmin * rng.choice([1, 1.5, 2, 4, 5])
            dsmax = ds0 * rng.choice([1, 1.25, 2, 5])
            s['inc'] = rng.choice([(3, 2), (5, 4), (6, 5), (2, 1), (1, 1)])
            s['lam1'] = s['lam0'] + s['dir'] * s['lamunit'] * rng.choice([1, 4, 9, 20])
            cfg.update(ds0=ds0, dsmin=dsmin, dsmax=dsmax, MaxSteps=rng.choice([1, 2, 3, 5, 8, 30]),
                       TargetNfev=rng.choice([4, 8, 20]), MaxIncrease=s['inc'][0] / s['inc'][1],
                       backtrackStop=rng.choice([np.inf, s['lamunit'] * 2, s['lamunit'] * 3, 0.0]))
        if rng.random() < 0.15:
            s['shared_list'] = list(rng.choice(lists))
            cfg['FracLamList'] = list(s['shared_list'])
        r = rng.random()
        s['CtoP'] = None if r < 0.5 else np.array([0.5, 4.0, 0.25]) if r < 0.75 else np.array([-3.0, 1.0, 2.0])
        s['RPtoC'] = rng.choice([None, None, None, np.array([0.5, 0.25, 1.0]), np.array([4.0, 0.125, 0.5]), np.array(0.25)])
        s['cfg'] = cfg
        s['name'] = '%s/%s' % (json.dumps(cfg, default=str), s['lam1'])
        return s

    def random_script(long):
        s = [dict(ok=rng.random() < 0.97, n=rng.randint(1, 30), m=0)]
        pf = rng.choice([0.0, 0.2, 0.5, 0.8])
        for _ in range(rng.choice([2, 5, 12, long])):
            if rng.random() < pf:
                s.append(dict(ok=False, n=rng.randint(1, 40), m=0))
            else:
                s.append(dict(ok=True, n=rng.randint(1, 40), m=rng.choice([1, 1, 1, 2, 3, -1, -2, 0])))
        return s

    if extra.get('FOCUS') == 'C03':
        # directions under failing attempts and fallback weights
        for i in range(200 if tier == 'quick' else 3000):
            st = setup_of()
            st['compare'], st['shared_list'] = False, None
            st['cfg']['MaxSteps'] = max(st['cfg']['MaxSteps'], 5)
            st['lam1'] = st['lam0'] + st['dir'] * st['lamunit'] * rng.choice([9, 20])
            st['cfg']['FracLamList'] = rng.choice([[], [0.25], [0.5, 0.25], [0.75, 0.25, 0.875]])
            execute([(random_script(25), rng.randint(1, 10 ** 6)) for _ in range(rng.choice([1, 2]))], 'script%d' % i, st)
        return

    # behaviours enumerated by TLC
    beh = json.load(open(extra['beh']))['cont'] if 'beh' in extra else []
    idx = list(range(len(beh)))
    rng.shuffle(idx)
    for i in idx[: (350 if tier == 'quick' else len(beh))]:
        b = beh[i]
        execute([(b['h'], i + 1)], 'tlc%d' % i, setup_of(b['c']))
    # random longer scripts, object reuse
    for i in range(450 if tier == 'quick' else 6000):
        st = setup_of()
        scripts = [(random_script(25), rng.randint(1, 10 ** 6)) for _ in range(rng.choice([1, 1, 2, 3]))]
        execute(scripts, 'rnd%d' % i, st)


if __name__ == '__main__':
    driver_main(run)
