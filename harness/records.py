"""Callbacks writing continuation records (P01)."""
import os, shutil, tempfile, importlib
from decimal import Decimal
from vlib import *
import numpy as np


def cell(s):
    try:
        t = Decimal(s).as_tuple()
    except Exception:
        return dict(m=BAD, k=0)
    if not isinstance(t.exponent, int) or len(t.digits) > 8:
        return dict(m=BAD, k=0)
    m = int(''.join(map(str, t.digits)))
    return dict(m=-m if t.sign else m, k=-t.exponent)


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    import tmdsimpy.utils.continuation as cu
    ri = rng.randint
    NAMES = ['a.npz', 'b.npz', 's.dat', 't.dat', 'u.txt']
    HS = [[1], [0, 1], [0, 1, 2], [0, 1, 3], [1, 2, 3], [1, 3], [0, 2, 3], [0, 1, 2, 3, 4], [0], [2, 5]]

    def exc(ex):
        rec.emit(op='exc', prop='P01', exc=ex)

    def observe(folder):
        out = []
        for n in sorted(os.listdir(folder)):
            p = os.path.join(folder, n)
            if n.endswith('.npz'):
                with np.load(p, allow_pickle=False) as z:
                    if sorted(z.files) != ['XlamP', 'dirP_prev']:
                        out.append(dict(name=n, X=[], d=[]))
                        continue
                    X, d = z['XlamP'], z['dirP_prev']
                out.append(dict(name=n, X=QM(X, 8, 1e-9), d=QM(d, 8, 1e-9)))
            else:
                with open(p) as f:
                    t = f.read()
                lines = [[c.strip() for c in ln.split('&')] for ln in t.split('\n')]
                out.append(dict(name=n, whole=lines[-1] == [''],
                                lines=[dict(s=c, n=[cell(v) for v in c]) for c in lines[:-1]]))
        return out

    def config(kind, nd):
        """what a writer is configured with"""
        h = rng.choice(HS)
        c = dict(kind=kind)
        if kind in ('hbm', 'phase', 'vprnm', 'vphase'):
            c.update(h=h, order=ri(0, 2), n=nd)
            outs = []
            for _ in range(1 if kind in ('hbm', 'phase') else ri(1, 3)):
                r = [rng.choice([0, 0, 1, 1, -1, 2]) for _ in range(nd)]
                outs.append(dict(r=r, g=rng.choice(h)))
            c['outs'] = outs
            if kind == 'vphase':
                c['corder'] = ri(0, 2)
        return c

    def point(nU, size=40):
        """harmonic unknowns, remaining unknowns (eighths except w), direction"""
        return [ri(-size, size) for _ in range(nU)]

    def big(n):
        return [rng.choice([ri(-800, 800), 8 * ri(-11000000, 11000000) + 3]) for _ in range(n)]

    def history(ops):
        """ops: list of ('call', [names]) | restart | delete; None = random"""
        nd = ri(1, 3)
        folder = tempfile.mkdtemp(prefix='verif_rec_')
        try:
            one_history(ops, nd, folder)
        finally:
            shutil.rmtree(folder, ignore_errors=True)

    def one_history(ops, nd, folder):
        # all callbacks of a history see the same vector of unknowns:
        # harmonic displacements, four more (eighths, w as integer rad/s where the writer expects it)
        layout = rng.choice(['epmc', 'hbm', 'phaseW', 'phaseA', 'vprnm', 'vphase'])
        kind = layout[:5] if layout.startswith('phase') else layout
        nn = 2 if layout == 'epmc' else 3
        kinds = {'a.npz': 'save', 'b.npz': 'save', 's.dat': kind, 't.dat': kind, 'u.txt': kind}
        cfgs = {n: config(kinds[n], nd) for n in NAMES}
        hh = rng.choice(HS)
        for n in NAMES:
            if 'h' in cfgs[n]:
                cfgs[n]['h'] = hh
                for o in cfgs[n]['outs']:
                    o['g'] = rng.choice(hh)
        nU = (sum(1 if g == 0 else 2 for g in hh)) * nd
        a_c = ri(-200, 200)     # held constant by some writers, as is w_c
        rec.begin([layout, nd, {n: cfgs[n] for n in NAMES}, ops])
        mod = [cu]
        order_n = max([cfgs[n].get('order', 0) for n in NAMES])

        gm = max(hh)
        wmax = 60 if order_n == 0 or gm == 0 else max(1, 250 // gm if order_n == 1 else 5 // gm)
        wmax = min(wmax, 60)
        w_c = ri(1, wmax)

        def draw():
            w = ri(1, wmax)
            for size in (40, 10, 3, 1, 0):
                U = point(nU, size)
                if layout == 'epmc':
                    xi, a = ri(-60, 60), ri(-60, 60)
                    return dict(U=U, w=w, xi=xi, a=a), U + [w, xi, a / 8]
                f, fc, fs, a = ri(-900, 900), ri(-900, 900), ri(-900, 900), ri(-900, 900)
                if layout == 'hbm':
                    v, X = dict(U=U, w=w, f=f), U + [f / 8, w]
                elif layout == 'phaseW':
                    v, X = dict(U=U, w=w, a=a_c, fc=fc, fs=fs), U + [fc / 8, fs / 8, w]
                elif layout == 'phaseA':
                    v, X = dict(U=U, w=w_c, a=a, fc=fc, fs=fs), U + [fc / 8, fs / 8, a / 8]
                elif layout == 'vprnm':
                    v, X = dict(U=U, w=w, f=f), U + [w, f / 8]
                else:
                    v, X = dict(U=U, w=w, a=a, fc=fc, fs=fs), U + [fc / 8, fs / 8, w, a / 8]
                ok = True
                for n in NAMES:
                    c = cfgs[n]
                    for o in c.get('outs', []):
                        b = sum((1 if g == 0 else 2) for g in hh if g < o['g'])
                        cc = sum(r * U[b * nd + i] for i, r in enumerate(o['r']))
                        ss = 0 if o['g'] == 0 else sum(r * U[(b + 1) * nd + i] for i, r in enumerate(o['r']))
                        if (cc * cc + ss * ss) * (o['g'] * v['w']) ** (2 * c['order']) > 9990 ** 2:
                            ok = False
                if ok:
                    return v, X
            return v, X

        def writer(n, expect):
            c = cfgs[n]
            p = os.path.join(folder, n)
            m = mod[0]
            if c['kind'] == 'save':
                return lambda x, y: m.continuation_save(x, y, p)
            if c['kind'] == 'epmc':
                return lambda x, y: m.print_epmc_stats(x, y, p)
            h = expect['h']
            if c['kind'] in ('hbm', 'phase'):
                r, g = expect['rs'][n][0], c['outs'][0]['g']
                if c['kind'] == 'hbm':
                    return lambda x, y: m.print_hbm_amp_stats(x, y, p, h, c['order'], r, g)
                if layout == 'phaseW':
                    return lambda x, y: m.print_hbm_amp_phase_stats(x, y, p, x[-1], a_c / 8, h, c['order'], r, g)
                return lambda x, y: m.print_hbm_amp_phase_stats(x, y, p, float(w_c), x[-1], h, c['order'], r, g)
            rl = [(r, o['g']) for r, o in zip(expect['rs'][n], c['outs'])]
            if c['kind'] == 'vprnm':
                return lambda x, y: m.print_vprnm_stats(x, y, p, h, c['order'], rl)
            return lambda x, y: m.print_vprnm_amp_phase_stats(x, y, p, h, c['corder'], c['order'], rl)

        def spec_call(n, v, X, d):
            c = cfgs[n]
            q = dict(c, file=n)
            if c['kind'] == 'save':
                q.update(X=QV(X, 8), d=QV(d, 8))
            else:
                q.update(v)
            return q

        if ops is None:
            ops = []
            for _ in range(ri(3, 12)):
                z = rng.random()
                if z < 0.12:
                    ops.append(['restart'])
                elif z < 0.2:
                    ops.append(['delete', rng.choice(NAMES)])
                else:
                    ops.append(['call', [rng.choice(NAMES + ['r1', 'r2']) for _ in range(rng.choice([1, 1, 2, 3, 4]))]])
        for op in ops:
            if op[0] == 'restart':
                mod[0] = importlib.reload(mod[0])
                rec.emit(op='restart', files=observe(folder))
                continue
            if op[0] == 'delete':
                p = os.path.join(folder, op[1])
                if not os.path.exists(p):
                    continue
                os.remove(p)
                rec.emit(op='delete', f=op[1], files=observe(folder))
                continue
            v, X = draw()
            X = np.array(X, dtype=float)
            d = np.array(big(len(X)), dtype=float) / 8
            if all(n in ('a.npz', 'b.npz', 'r1', 'r2') for n in op[1]):
                X = np.array(big(len(X)), dtype=float) / 8
            h = np.array(hh)
            rs = {n: [np.array(o['r'], dtype=float) for o in cfgs[n].get('outs', [])] for n in NAMES}
            seen = []
            funs, cs, expect, made = [], [], [], {}
            for n in op[1]:
                # a callback listed twice is the same object twice
                if n not in made:
                    made[n] = writer(n, dict(h=h, rs=rs)) if n in NAMES else \
                        (lambda x, y, n=n: seen.append(dict(n=n, X=QV(x, 8), d=QV(y, 8))))
                funs.append(made[n])
                if n in NAMES:
                    cs.append(spec_call(n, v, X, d))
                else:
                    expect.append(dict(n=n, X=QV(X, 8), d=QV(d, 8)))
            x, y, nf = X.copy(), d.copy(), list(funs)
            if len(funs) == 1 and rng.random() < 0.5:
                _, ex = guard(funs[0], x, y)
            else:
                _, ex = guard(mod[0].combine_callback_funs, funs, x, y)
            if ex:
                return exc(ex)
            ch = not (np.array_equal(x, X) and np.array_equal(y, d) and h.tolist() == hh and nf == funs and
                      all(r.tolist() == o['r'] for n in NAMES for r, o in zip(rs[n], cfgs[n].get('outs', []))))
            try:
                fl = observe(folder)
            except Exception as e_:
                return exc('unreadable-' + type(e_).__name__)
            rec.emit(op='combine', cs=cs, seen=seen, expect=expect, argchanged=ch, files=fl)

    beh = json.load(open(extra['beh']))['records'] if extra.get('beh') else []
    m = 250 if quick else 3000
    for b in (beh if len(beh) <= m else rng.sample(beh, m)):
        history([['call', [NM[n] for n in o['l']]] if o['op'] == 'call' else ['restart'] if o['op'] == 'restart'
                 else ['delete', NM[o['f']]] for o in b])
    for _ in range(150 if quick else 2500):
        history(None)


NM = {'a': 'a.npz', 'b': 'b.npz', 's': 's.dat', 't': 't.dat'}
driver_main(run)
