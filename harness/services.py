"""Linear services, eigs, conditioning, agreement of the nonlinear solvers.  S03."""
import json
from vlib import *
import numpy as np


def run(rec, tier, rng, extra):
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP

    def imat(N, m=4):
        while True:
            A = np.array([[rng.randint(-m, m) for _ in range(N)] for _ in range(N)])
            if abs(np.linalg.det(A)) > 0.5 and np.linalg.cond(A) < 200:
                return A

    def solver():
        return (NonlinearSolver(), 'base') if rng.random() < 0.5 else (NonlinearSolverOMP(config={'verbose': False}), 'omp')

    def history(key, ops, N):
        s, kind = solver()
        s2 = s if rng.random() < 0.6 else solver()[0].__class__()
        if type(s2) is not type(s):
            s2 = s
        rec.begin([key, kind, N, ops], nontrivial=len(ops) > 2)
        mats = {1: imat(N), 2: imat(N)}
        handles = []
        for o in ops:
            who = s if rng.random() < 0.5 else s2
            if o['kind'] == 'factor':
                A = mats[o['m']].astype(float)
                Ac = A.copy()
                h, ex = guard(who.lin_factor, A)
                if ex:
                    rec.emit(op='exc', exc=ex)
                    return
                ch = not np.array_equal(A, Ac)
                handles.append((h, who))
                rec.emit(op='factor', A=mats[o['m']].tolist(), argchanged=bool(ch))
                continue
            if o['kind'] == 'fsolve':
                h, hw = handles[o['hd'] - 1]
                A = None
                m = None
            x = [rng.randint(-9, 9) for _ in range(N)]
            src = mats[o['m']] if o['kind'] == 'solve' else None
            if o['kind'] == 'fsolve':
                # matrix of the handle is known to the specification; choose b from it
                M = [mats[p['m']] for p in ops if p['kind'] == 'factor'][o['hd'] - 1]
                b = M @ x
                bf = b.astype(float)
                bc = bf.copy()
                r, ex = guard(hw.lin_factored_solve, h, bf)
            else:
                b = src @ x
                bf = b.astype(float)
                bc = bf.copy()
                Af = src.astype(float)
                r, ex = guard(who.lin_solve, Af, bf)
            if ex:
                rec.emit(op='exc', exc=ex)
                return
            rec.emit(op=o['kind'], hd=o['hd'], A=src.tolist() if src is not None else [], b=b.tolist(),
                     x=QV(r), argchanged=not np.array_equal(bf, bc) or
                     (o['kind'] == 'solve' and not np.array_equal(Af, src)))

    def eig_case(i):
        s, kind = solver()
        rec.begin(['eigs', i, kind])
        mine = [0, rng.choice([1, 2, 3, 7])]
        for _ in range(rng.choice([2, 3, 4])):
            N = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
            useM = rng.random() < 0.6
            lam = sorted(rng.sample(range(0, 14) if rng.random() < 0.6 else range(-6, 9), N))
            if useM:
                V = np.eye(N, dtype=int)
                for _ in range(3 if N > 1 else 0):
                    a, b = rng.sample(range(N), 2)
                    V[:, a] += rng.choice([-1, 1]) * V[:, b]
                Vi = np.rint(np.linalg.inv(V)).astype(int)
                M, K, vs = Vi.T @ Vi, Vi.T @ np.diag(lam) @ Vi, 1
            else:
                base = rng.choice([3, 4])
                if base == 3:
                    H = np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]])
                    N, vs = 3, 3
                else:
                    H = np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]])
                    N, vs = 4, 2
                lam = [v * vs * vs for v in sorted(rng.sample(range(-3, 12), N))]
                K = H @ np.diag(lam) @ H.T // (vs * vs)
                M = np.eye(N, dtype=int)
            Kf, Mf = K.astype(float), M.astype(float)
            mode = rng.choice(['default', 'mine', 'own', 'pos'])
            if mode == 'default':
                lo, hi = 0, 2
                args, kw = (Kf,), {}
                if useM:
                    args = (Kf, Mf)
            else:
                lst = mine if mode != 'own' else [rng.randrange(N), N + rng.randint(-1, 3)]
                if mode == 'own':
                    lst = [lst[0], max(lst)]
                lo, hi = lst
                args, kw = (Kf,), dict(subset_by_index=lst)
                if useM:
                    kw['M'] = Mf
            keep = list(lst) if mode != 'default' else None
            r, ex = guard(s.eigs, *args, **kw)
            if ex:
                rec.emit(op='exc', exc=ex)
                return
            ch = not (np.array_equal(Kf, K) and np.array_equal(Mf, M)) or (keep is not None and keep != list(lst))
            vals, vecs = r
            rec.emit(op='eigs', K=K.tolist(), M=M.tolist(), lo=lo, hi=hi, vals=QV(vals, 1, 1e-5),
                     vecs=QM(vecs, vs, 1e-5), vs=vs, spec=[int(v) for v in lam], argchanged=bool(ch))

    def cond_case(i):
        s, kind = solver()
        rec.begin(['cond', i, kind])
        N = rng.choice([1, 2, 3, 4, 6])
        A = imat(N)

        def raw(x):
            x = np.asarray(x)
            return A @ x + x ** 2, A + 2 * np.diag(x)
        calls = []

        def fun(X, calc_grad=True):
            calls.append(np.array(X))
            R, J = raw(X)
            return (R, J, R) if calc_grad else (R,)

        def fun1(X):
            calls.append(np.array(X))
            return raw(X)
        cp = np.array([rng.choice([1, 2, 4, 8, 3]) for _ in range(N)])
        vec = rng.random() < 0.7
        rp = np.array([rng.choice([1, 2, 4, 3, -2]) for _ in range(N)]) if vec else np.full(N, rng.choice([1, 2, 5]))
        one = rng.random() < 0.3
        cpf, rpf = cp / 4.0, rp / 4.0 if vec else float(rp[0]) / 4.0
        mode = 'given'
        if not vec and rng.random() < 0.3:
            mode = 'default'
            rp = np.full(N, 4)
        w, ex = guard(lambda: s.conditioning_wrapper(fun1 if one else fun, cpf, RPtoC=rpf) if mode == 'given'
                      else s.conditioning_wrapper(fun1 if one else fun, cpf))
        if ex:
            rec.emit(op='exc', exc=ex)
            return
        for _ in range(3):
            del calls[:]
            x = np.array([rng.randint(-5, 5) for _ in range(N)])
            grad = True if one else rng.random() < 0.5
            xf = x.astype(float)
            r, ex = guard(w, xf) if grad and rng.random() < 0.5 or one else guard(w, xf, calc_grad=grad)
            if ex:
                rec.emit(op='exc', exc=ex)
                return
            xp = calls[0] if calls else np.full(N, np.nan)
            R, J = raw(x * cp / 4.0)
            Jc = QM(r[1], 256) if len(r) > 1 else []
            ch = not np.array_equal(xf, x) or not np.array_equal(cpf, cp / 4.0) or \
                (vec and not np.array_equal(rpf, rp / 4.0))
            # xp*4, R*16, J*4 are integers;  Rc = rp/4*R -> *64 ;  Jc = rp/4*J*cp/4 -> *64
            rec.emit(op='cond', xc=x.tolist(), cp=cp.tolist(), rp=rp.tolist(), xp=QV(xp, 4), R=QV(R, 16), J=QM(J, 4),
                     Rc=QV(r[0], 64), Jc=QM(r[1], 64) if len(r) > 1 else [], grad=bool(grad), nret=len(r),
                     ncalls=len(calls), argchanged=bool(ch))

    def nsolve_case(i):
        N = rng.choice([1, 2, 3, 5])
        A = imat(N)
        A = A @ A.T + np.eye(N, dtype=int)          # well conditioned
        xs = np.array([rng.randint(-4, 4) for _ in range(N)])
        k = rng.choice([0, 1])
        x0 = xs + np.array([rng.choice([-1, 0, 1]) for _ in range(N)]) * 0.25
        rec.begin(['nsolve', i, N, k])
        for which in (0, 1, 2):
            s = NonlinearSolver() if which == 0 else NonlinearSolverOMP(config=dict(
                reform_freq=1 if which == 1 else 3, verbose=False, max_steps=60, stopping_tol=['xtol'], xtol=1e-10))
            def fun(X, calc_grad=True):
                d = np.asarray(X) - xs
                R = A @ d + k * d ** 3
                J = A + 3 * k * np.diag(d ** 2)
                rec.emit(op='ev', fx=FV(X, 1e-7), fR=FV(R, 1e-7), fJ=FV(J, 1e-4), grad=bool(calc_grad))
                return (R, J) if calc_grad else (R,)
            xf = np.array(x0, dtype=float)
            r, ex = guard(s.nsolve, fun, xf, verbose=False)
            if ex:
                rec.emit(op='exc', exc=ex)
                return
            X, R, J, sol = r
            rec.emit(op='nsolve', succ=bool(sol['success']), x=QV(X, 1, 1e-4), xs=xs.tolist(), base=which == 0,
                     fx=FV(X, 1e-7), fR=FV(R, 1e-7), fJ=FV(J, 1e-4), argchanged=not np.array_equal(xf, x0))

    beh = json.load(open(extra['beh']))['services']
    idx = list(range(len(beh)))
    rng.shuffle(idx)
    q = tier == 'quick'
    for i in idx[: 120 if q else 3000]:
        history('tlc%d' % i, beh[i], rng.choice([1, 2, 3, 4, 5, 7, 10]))
    for i in range(120 if q else 2000):
        eig_case(i)
    for i in range(120 if q else 2000):
        cond_case(i)
    for i in range(60 if q else 600):
        nsolve_case(i)


if __name__ == '__main__':
    driver_main(run)
