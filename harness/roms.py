"""Reduced-order response curves from backbones (M01)."""
import math
from vlib import *
import numpy as np

HS = [[1], [0, 1], [0, 1, 2], [1, 2], [1, 3], [0, 1, 3], [1, 2, 3]]


def nhc(h):
    return sum(1 if g == 0 else 2 for g in h)


def before(h, g):
    return nhc([k for k in h if k < g])


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    from tmdsimpy.roms import epmc, vprnm
    ri = rng.randint
    ints = lambda n, a: [ri(-a, a) for _ in range(n)]
    TRI = [(3, 4), (4, 3), (0, 1), (1, 0), (2, 0), (0, 2), (-3, 4), (4, -3), (-1, 0), (0, -1), (0, 3), (-4, -3)]

    def exc(ex):
        rec.emit(op='exc', prop='M01', exc=ex)

    def control(n):
        c = [0] * n
        c[rng.randrange(n)] = rng.choice([1, 1, 1, -1])
        if n > 1 and rng.random() < 0.3:
            c[rng.randrange(n)] = 1
        return c

    def with_control(u, h, g, n, c, t):
        """alter u so that c picks the pair t at harmonic g"""
        j = [i for i in range(n) if c[i]][0]
        b = before(h, g)
        for k in range(2):
            cur = sum(c[i] * u[(b + k) * n + i] for i in range(n))
            u[(b + k) * n + j] += c[j] * (t[k] - cur)
        return u

    def backbone(n, h, M, c=None, same=False, w0=None, qmax=8):
        bb, t0 = [], rng.choice(TRI)
        q, w = 0, w0 or ri(2, 5)
        x0 = ri(1, 8)
        for _ in range(M):
            q += ri(1, 2)
            w = min(6, max(1, w + rng.choice([-1, 0, 0, 0, 1])))
            phi = ints(nhc(h) * n, 2)
            if c is not None:
                with_control(phi, h, 1, n, c, t0 if same or rng.random() < 0.5 else rng.choice(TRI))
            if c is None and not any(phi[before(h, 1) * n:(before(h, 1) + 2) * n]):
                phi[before(h, 1) * n] = 1
            bb.append(dict(phi=phi, w=w, x=min(25, x0 + ri(0, 4)), q=q))
        refs = []
        if c is not None:
            b = before(h, 1)
            for r in bb:
                pc = sum(c[i] * r['phi'][b * n + i] for i in range(n))
                ps = sum(c[i] * r['phi'][(b + 1) * n + i] for i in range(n))
                refs.append(r['q'] * int(round(math.hypot(pc, ps))))
        if bb[-1]['q'] > qmax:
            return backbone(n, h, M, c, same, w0, qmax)
        return bb, refs

    def rising(R):
        return all(a < b for a, b in zip(R[:-1], R[1:]))

    def array(bb):
        return np.array([r['phi'] + [r['w'], r['x'] / 10, math.log10(r['q'])] for r in bb])

    def fr_fi(bb, h, n, F):
        out = []
        b = before(h, 1)
        for r in bb:
            pc, ps = np.array(r['phi'][b * n:(b + 1) * n]), np.array(r['phi'][(b + 1) * n:(b + 2) * n])
            fc, fs = np.array(F[b * n:(b + 1) * n]), np.array(F[(b + 1) * n:(b + 2) * n])
            out.append((int(pc @ fc + ps @ fs), int(ps @ fc - pc @ fs)))
        return out

    def force():
        n, h, M = ri(1, 3), rng.choice(HS), ri(1, 6)
        bb, _ = backbone(n, h, M)
        A = array(bb)
        kw, direct = {}, rng.random() < 0.35
        eff = [dict(r) for r in bb]
        if rng.random() < 0.35:
            if rng.random() < 0.5:
                w = ri(1, 5)
                kw['w'] = float(w)
                for r in eff:
                    r['w'] = w
            else:
                for r in eff:
                    r['w'] = ri(1, 5)
                kw['w'] = np.array([float(r['w']) for r in eff])
        if rng.random() < 0.35:
            if rng.random() < 0.5:
                z = ri(0, 6)
                kw['zeta'] = z / 20
                for r in eff:
                    r['x'] = z * r['w']
            else:
                zs = [ri(0, 6) for _ in eff]
                kw['zeta'] = np.array(zs) / 20
                for r, z in zip(eff, zs):
                    r['x'] = z * r['w']
        if any(r['x'] > 25 for r in eff):
            return force()
        F = ints(nhc(h) * n, 9)
        fr = fi = [0] * M
        if direct:
            s = rng.random() < 0.5
            fr, fi = ([ri(-90, 90)] * M, [ri(-90, 90)] * M) if s else (ints(M, 90), ints(M, 90))
            kw['phiH_Fl_real'] = float(fr[0]) if s else np.array(fr, dtype=float)
            kw['phiH_Fl_imag'] = float(fi[0]) if s else np.array(fi, dtype=float)
        else:
            v = fr_fi(bb, h, n, F)
            fr, fi = [a for a, _ in v], [b for _, b in v]
            kw['Fl'] = np.array(F, dtype=float)
        # frequencies up to about 6
        if any(r['w'] ** 2 + math.hypot(a, b) / r['q'] > 36 or a * a + b * b > 40000 for r, a, b in zip(eff, fr, fi)):
            return force()
        rec.begin(['force', bb, eff, h, n, F if not direct else [fr, fi]])
        B, hh = A.copy(), np.array(h)
        k0 = {k: np.copy(v) for k, v in kw.items()}
        r, ex = guard(epmc.constant_force, B, n, hh, **kw)
        if ex:
            return exc(ex)
        U, q, ph = r
        if np.shape(U) != (len(q), nhc(h) * n + 1) or np.shape(ph) != np.shape(q):
            return exc('shape')
        ch = not (np.array_equal(A, B) and all(np.array_equal(k0[k], kw[k]) for k in kw) and hh.tolist() == h)
        rec.emit(op='force', bb=eff, h=h, n=n, F=F, direct=direct, fr=fr, fi=fi, argchanged=ch,
                 out=[dict(u=FV(U[k, :-1], 1e-3), om=F_(U[k, -1]), q=F_(q[k]), cs=globals()['F'](math.cos(ph[k]), 1e-4),
                           sn=globals()['F'](math.sin(ph[k]), 1e-4)) for k in range(len(q))])

    def F_(x):
        return globals()['F'](x, 1e-3)

    def V_om(Va, Rv, a):
        return np.interp(a, Rv, Va[:, -2])

    def units(call, ex0, U0, f0):
        """call(S) -> (responses, forces) with displacements and forces in units multiplied by S"""
        S = 10.0 ** rng.choice([-6, -3, 3, 4, 5, 6])
        r, ex = guard(call, S)
        U, f = r if not ex else ([], [])
        cap = lambda A: [x if x < 9e6 else x for x in FV(np.ravel(np.array(A, dtype=float)), 1e-3)]
        rec.emit(op='units', exc=ex or '', u=cap(np.asarray(U) / S), f=cap(np.asarray(f) / S),
                 base=dict(exc=ex0 or '', u=cap(U0), f=cap(f0)))

    def request(R, outside=0.1):
        z = rng.random()
        if z < 0.35:
            return dict(num=rng.choice(R), den=1)
        if z < 0.35 + outside:
            return dict(num=rng.choice([min(R) - 1, max(R) + 1]), den=1) if rng.random() < 0.5 else dict(num=max(R) * 4 + 1, den=4)
        d = rng.choice([2, 3, 4])
        return dict(num=ri(R[0] * d, max(R) * d), den=d)

    def disp():
        n, h, M = ri(1, 3), rng.choice(HS), ri(2, 6)
        c = control(n)
        bb, R = backbone(n, h, M, c)
        if not rising(R) and rng.random() < 0.85:
            return disp()
        z = request(R)
        if not z['num'] > 0 or max(b - a for a, b in zip(R[:-1], R[1:])) > 30:
            return disp()
        F = ints(n, 3)
        # modal force not vanishing anywhere along the backbone
        b = before(h, 1)
        pts = [np.array(r['phi'], dtype=float) for r in bb]
        pts = [p + (q - p) * s for p, q in zip(pts[:-1], pts[1:]) for s in np.linspace(0, 1, 25)]
        if min(math.hypot(p[b * n:(b + 1) * n] @ F, p[(b + 1) * n:(b + 2) * n] @ F) for p in pts) < 0.7:
            return disp()
        A = array(bb)
        kw, eff = {}, [dict(r) for r in bb]
        if rng.random() < 0.35:
            if rng.random() < 0.5:
                w = ri(1, 5)
                kw['w'] = float(w)
                for r in eff:
                    r['w'] = w
            else:
                for r in eff:
                    r['w'] = ri(1, 5)
                kw['w'] = np.array([float(r['w']) for r in eff])
        if rng.random() < 0.35:
            zs = [ri(0, 6)] * M if rng.random() < 0.5 else [ri(0, 6) for _ in eff]
            kw['zeta'] = zs[0] / 20 if len(set(zs)) == 1 else np.array(zs) / 20
            for r, zz in zip(eff, zs):
                r['x'] = zz * r['w']
        Om = np.array([ri(100, 6000) / 1000 for _ in range(ri(1, 5))])
        rec.begin(['disp', bb, eff, h, n, c, F, z, Om.tolist()])
        B, hh, Fa, ca, Oa = A.copy(), np.array(h), np.array(F, dtype=float), np.array(c, dtype=float), Om.copy()
        k0 = {k: np.copy(v) for k, v in kw.items()}
        r, ex = guard(epmc.constant_displacement, B, hh, Fa, Oa, ca, z['num'] / z['den'], **kw)
        base = dict(op='disp', bb=eff, R=R, h=h, n=n, F=F, om=FV(Om, 1e-3), **z)
        if ex:
            return rec.emit(exc=ex, **base)
        f, p = r
        p = np.array(p, dtype=float)
        ch = not (np.array_equal(A, B) and all(np.array_equal(k0[k], kw[k]) for k in kw) and hh.tolist() == h and
                  Fa.tolist() == F and ca.tolist() == c and np.array_equal(Oa, Om))
        if np.shape(p) != (A.shape[1],):
            return exc('shape')
        p[-2] *= 10
        p[-1] = 10 ** p[-1]
        rec.emit(exc='', argchanged=ch, f=FV(f, 1e-3), point=FV(p, 1e-3), **base)

    def super_():
        n, rhi = ri(1, 2), rng.choice([2, 3, 3, 5])
        hf = rng.choice([[1], [0, 1], [1, 2], [0, 1, 3], [1, 3]])
        hs = rng.choice([[1], [0, 1], [1, 2], [0, 1, 2]])
        hv = sorted(set(rng.choice([[1], [0, 1], [0, 1, 2], [1, 2], [0, 1, 3]]) + [rhi]))
        if rhi > 3:
            hs = rng.choice([[1], [0, 1]])
        c1, cr = control(n), control(n)
        pinned = rng.random() < 0.5
        fund, Rf = backbone(n, hf, ri(2, 4), c1, pinned, qmax=5)
        sup, Rs = backbone(n, hs, ri(2, 4), cr, qmax=5)
        two = rng.random() < 0.5
        V, Rv = [], []
        om4 = ri(2, 24 // rhi)
        t0 = rng.choice(TRI)
        q = 0
        for _ in range(ri(2, 4)):
            u = ints(nhc(hv) * n, 3)
            q += ri(1, 2)
            t = t0 if pinned or rng.random() < 0.5 else rng.choice(TRI)
            with_control(u, hv, 1, n, c1, [q * v for v in t])
            om4 = min(24 // rhi, max(2, om4 + rng.choice([-1, 0, 0, 1])))
            V.append(u + ([ri(-20, 20), ri(1, 20)] if two else [ri(1, 30)]) + [om4])
            Rv.append(q * int(round(math.hypot(*t))))
        if not (rising(Rf) and rising(Rs) and rising(Rv)) and rng.random() < 0.95:
            return super_()
        z = request(Rv, 0.06)
        if not z['num'] > 0 or max(b - a for R in (Rf, Rs, Rv) for a, b in zip(R[:-1], R[1:])) > 20 or max(Rv + Rf) > 25:
            return super_()
        a = z['num'] / z['den']
        # mostly within all backbones
        if not Rf[0] <= a <= Rf[-1] and rng.random() < 0.95:
            return super_()

        def lerp(rows, R, v):
            return np.array([np.interp(v, R, [r[j] for r in rows], left=np.nan, right=np.nan) for j in range(len(rows[0]))])
        rows = lambda bb: [r['phi'] + [r['w'], r['x'], r['q']] for r in bb]
        cut = lambda u, h, g: (np.array(u[before(h, g) * n:(before(h, g) + 1) * n]), np.array(u[(before(h, g) + 1) * n:(before(h, g) + 2) * n]))
        F = ints(n, 3)
        sp = fp = None
        if rising(Rf) and rising(Rs) and rising(Rv):
            vp = lerp(V, Rv, a)
            vc, vs = cut(vp, hv, rhi)
            A = math.hypot(np.array(cr) @ vc, np.array(cr) @ vs)
            if not Rs[0] <= A <= Rs[-1] and rng.random() < 0.95:
                return super_()
            sp, fp = lerp(rows(sup), Rs, A), lerp(rows(fund), Rf, a)
            if np.all(np.isfinite(np.hstack((sp, fp)))):
                pc, ps = cut(sp, hs, 1)
                if math.hypot(np.array(cr) @ pc, np.array(cr) @ ps) < 0.5 or not 0.6 <= min(r['w'] for r in sup) / sp[-3] \
                        or max(r['w'] for r in sup) / sp[-3] > 1.4:
                    return super_()
                pc, ps = cut(fp, hf, 1)
                if math.hypot(pc @ F, ps @ F) < 0.7 or math.hypot(np.array(c1) @ pc, np.array(c1) @ ps) < 0.5:
                    return super_()
                # the modal amplitudes below the resonance are told apart by the response amplitude
                if any(abs(r['q'] - sp[-1]) < 0.02 for r in sup[:0]):
                    return super_()
                if math.hypot(np.array(c1) @ cut(vp, hv, 1)[0], np.array(c1) @ cut(vp, hv, 1)[1]) < 0.3:
                    return super_()
                w2 = (rhi * vp[-1] / 4)
                if sp[-1] * 0.1 * sp[-2] / sp[-3] * w2 ** 2 > 250:
                    return super_()
        correct = rng.random() < 0.6
        key = ['vprnm', fund, hf, sup, hs, V, hv, two, rhi, c1, cr, z, F, correct]
        rec.begin(key)
        Va = np.array(V, dtype=float)
        Va[:, -1] /= 4
        if two:
            Va = np.hstack((Va, np.array(Rv, dtype=float).reshape(-1, 1)))        # ..., Fc, Fs, w, amplitude
        else:
            Va = Va[:, list(range(Va.shape[1] - 2)) + [Va.shape[1] - 1, Va.shape[1] - 2]]   # ..., w, force
        args = [array(fund), np.array(hf), array(sup), np.array(hs), Va, np.array(hv), rhi, np.array(c1, dtype=float), a,
                np.array(cr, dtype=float), np.array(F, dtype=float)]
        keep = [np.copy(v) for v in args]
        r, ex = guard(vprnm.constant_h1_displacement, *args, correct_force=correct)
        ev = dict(op='vprnm', fund=fund, Rf=Rf, hf=hf, sup=sup, Rs=Rs, hs=hs, V=V, Rv=Rv, hv=hv, two=two, rhi=rhi, c1=c1, cr=cr,
                  n=n, F=F, correct=correct, pinned=pinned and z['den'] == 1 and a in Rf, **z)
        if ex:
            return rec.emit(exc=ex, allnan=False, **ev)
        U, f, ho = r
        ho = [int(v) for v in ho]
        hexp = sorted(set([hv[0]] + hf + [rhi * v for v in hs]))
        if np.shape(U) != (len(f), nhc(hexp) * n + 1):
            return exc('shape')
        ch = not all(np.array_equal(x, y) for x, y in zip(args, keep))
        ev.update(exc='', argchanged=ch, allnan=bool(np.all(np.isnan(U[:, 1:-1])) or len(f) == 0), hout=ho, hexp=hexp)
        out = []
        cF = sF = 1.0
        ok = sp is not None and np.all(np.isfinite(np.hstack((sp, fp)))) and ho == hexp
        if ok:
            # witnesses for the phases
            ang = lambda x, y: math.atan2(np.array(y), np.array(x))
            p = cut(fp, hf, 1)
            u1 = cut(U[0], ho, 1)
            th = ang(np.array(c1) @ u1[0], np.array(c1) @ u1[1]) - ang(np.array(c1) @ p[0], np.array(c1) @ p[1])
            cF, sF = math.cos(th), math.sin(th)
            fc = fs = np.zeros(n)
            if rhi in hf:
                x = cut(fp, hf, rhi)
                k = rhi * th
                fc, fs = fp[-1] * (x[0] * math.cos(k) - x[1] * math.sin(k)), fp[-1] * (x[0] * math.sin(k) + x[1] * math.cos(k))
        for k in range(len(f)):
            cs, sn, row = 1.0, 0.0, 0
            if ok:
                x = cut(U[k], ho, rhi)
                s = (np.array(cr) @ (x[0] - fc), np.array(cr) @ (x[1] - fs))
                amp = math.hypot(*s)
                pS = cut(sp, hs, 1)
                aS = sp[-1] * math.hypot(np.array(cr) @ pS[0], np.array(cr) @ pS[1])
                cand = [(abs(amp - aS) if abs(U[k, -1] - vp[-1] / 4) < 1e-6 else abs(amp - aS) + 1e-5, 0)]
                cand += [(abs(amp - R), i + 1) for i, R in enumerate(Rs) if sup[i]['q'] < sp[-1] - 1e-9]
                row = min(cand)[1] if all(np.isfinite(c[0]) for c in cand) else 0
                pp = cut(sup[row - 1]['phi'], hs, 1) if row else pS
                th = ang(*s) - ang(np.array(cr) @ pp[0], np.array(cr) @ pp[1])
                cs, sn = math.cos(th), math.sin(th)
            out.append(dict(u=FV(U[k, :-1], 1e-3), om=F_(U[k, -1]), oms=F_(rhi * U[k, -1]), f=F_(f[k]),
                            cs=globals()['F'](cs, 1e-4), sn=globals()['F'](sn, 1e-4), r=row))
        inc = bool(np.all(np.diff(U[:, -1]) > 0))
        pk = int(np.argmin(np.abs(U[:, -1] - V_om(Va, Rv, a)))) + 1 if len(f) and not np.any(np.isnan(U[:, -1])) else 0
        rec.emit(out=out, cF=globals()['F'](cF, 1e-4), sF=globals()['F'](sF, 1e-4), sorted=False, pk=pk, **ev)
        # lightly damped superharmonic modes: the resonance point itself is always among the responses
        if ok and pk and rhi not in hf and rng.random() < 0.3:
            x = [np.copy(v) for v in args]
            x[2][:, -2] *= rng.choice([1e-2, 1e-4, 0.0])
            r1, ex1 = guard(vprnm.constant_h1_displacement, *x, correct_force=correct)
            pts = []
            if not ex1:
                for k in range(len(r1[0])):
                    y = cut(r1[0][k], [int(g) for g in r1[2]], rhi)
                    pts.append([F_(r1[0][k, -1]), F_(math.hypot(np.array(cr) @ y[0], np.array(cr) @ y[1]))])
            y = cut(U[pk - 1], ho, rhi)
            rec.emit(op='light', exc=ex1 or '', om=F_(U[pk - 1, -1]), amp=F_(math.hypot(np.array(cr) @ y[0], np.array(cr) @ y[1])), pts=pts)

        def scaled(S):
            x = [np.copy(v) for v in args]
            x[0][:, -1] += math.log10(S)
            x[2][:, -1] += math.log10(S)
            x[4][:, :-2] *= S
            x[4][:, -1] *= S
            x[8] = x[8] * S
            Us, fs, _ = vprnm.constant_h1_displacement(*x, correct_force=correct)
            return Us[:, :-1], fs
        # (at half of the critical damping a response of frequency zero is found or not by rounding)
        if ok and a not in Rv + Rf and A not in Rs and abs(sp[-2] / 20 / sp[-3] - 0.5) > 1e-6 and rng.random() < 0.5:
            units(scaled, '', U[:, :-1], f)
        # requested frequencies
        if not ok or len(f) < 2:
            return
        lo, hi = U[:, -1].min(), U[:, -1].max()
        inside = rng.random() < 0.6
        pick = lambda: ri(int(1000 * lo) + 4, max(int(1000 * lo) + 4, int(1000 * hi) - 4)) if inside else ri(int(700 * lo), int(1200 * hi))
        for _ in range(20):
            req = sorted({pick() / 1000 for _ in range(ri(1, 4))})
            if min(abs(v - o) for v in req for o in U[:, -1]) >= 0.003:
                break
        if not req or min(abs(v - o) for v in req for o in U[:, -1]) < 0.003 or (inc and np.diff(U[:, -1]).min() < 0.003):
            return
        rng.shuffle(req)
        out_of = any(v < U[:, -1].min() or v > U[:, -1].max() for v in req)
        r, ex = guard(vprnm.constant_h1_displacement, *args, correct_force=correct and not out_of, extra_Omega=np.array(req))
        if correct and out_of:
            r0, ex0 = guard(vprnm.constant_h1_displacement, *args, correct_force=False)
            if ex0:
                return exc(ex0)
            f = r0[1]
        ss = []
        for g in hexp:
            ss += [g != 0 and g % rhi == 0 and g // rhi in hs] * ((1 if g == 0 else 2) * n)
        e2 = dict(op='extra', sorted=inc, ss=ss, req=[F_(v) for v in req],
                  base=[dict(om=F_(U[k, -1]), u=FV(U[k, :-1], 1e-3), f=F_(f[k])) for k in range(len(f))])
        if ex:
            return rec.emit(exc=ex, rows=[], **e2)
        X, fx, _ = r
        rec.emit(exc='', rows=[dict(om=F_(X[k, -1]), u=FV(X[k, :-1], 1e-3), f=F_(fx[k])) for k in range(len(fx))], **e2)

    part = extra.get('PART')
    for _ in range(150 if quick else 2500):
        if part in (None, 'epmc'):
            force()
            disp()
        if part in (None, 'vprnm'):
            super_()


driver_main(run)
