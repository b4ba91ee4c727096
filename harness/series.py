"""Integer sample series that are exactly representable by a harmonic list, and their coefficients."""
import math
import numpy as np

# (harmonics, samples, symmetry) : the series of that symmetry are exactly those of the list
#   full: no alternating component;  anti: u(t + nt/2) = -u(t);  per4 / perN: repeats every p samples
CHOICES = [
    ([0, 1], 4, ('full',)), ([1], 4, ('zeromean',)),
    ([0, 1, 2], 6, ('full',)), ([1, 2], 6, ('zeromean',)),
    ([0, 1, 2, 3], 8, ('full',)), ([1, 2, 3], 8, ('zeromean',)), ([1, 3], 8, ('anti',)), ([0, 2], 8, ('per', 4)),
    ([2], 8, ('perz', 4)),
    ([0, 1, 2, 3, 4, 5], 12, ('full',)), ([1, 3, 5], 12, ('anti',)), ([0, 2, 4], 12, ('per', 6)), ([0, 3], 12, ('per', 4)),
    ([0, 1, 2, 3, 4, 5, 6, 7], 16, ('full',)), ([1, 3, 5, 7], 16, ('anti',)), ([0, 2, 4, 6], 16, ('per', 8)),
    ([0, 4], 16, ('per', 4)), ([2, 6], 16, ('antiper', 8)),
    # sample counts outside powers of two and three (the code documents even counts)
    ([0, 1, 2, 3, 4], 10, ('full',)), ([1, 2, 3, 4], 10, ('zeromean',)), ([0, 2, 4, 6], 14, ('per', 7)),
    ([1, 3, 5, 7, 9], 20, ('anti',)), ([0, 5], 20, ('per', 4)), ([0, 3, 6], 18, ('per', 6)),
]


def fix_alt(rng, s, amp, zero):
    """make the alternating sum (and the sum) of s zero, keeping integers"""
    n = len(s)
    for _ in range(400):
        alt = sum(v if i % 2 == 0 else -v for i, v in enumerate(s)) if n % 2 == 0 else 0
        tot = sum(s) if zero else 0
        if alt == 0 and tot == 0:
            return s
        i = rng.randrange(n)
        if zero and n % 2:
            s[i] -= 1 if tot > 0 else -1
        elif zero:
            # even part sums to zero and odd part sums to zero
            for par in (0, 1):
                q = sum(s[par::2])
                if q:
                    k = rng.randrange(par, n, 2)
                    s[k] -= 1 if q > 0 else -1
        else:
            s[i] -= (1 if alt > 0 else -1) * (1 if i % 2 == 0 else -1)
    return None


def series(rng, nt, sym, amp=6, smooth=True):
    """one integer series of length nt with the symmetry"""
    while True:
        kind = sym[0]
        if kind in ('per', 'perz', 'antiper'):
            p = sym[1]
            sub = {'per': 'full', 'perz': 'zeromean', 'antiper': 'anti'}[kind]
            return series(rng, p, (sub,), amp, smooth) * (nt // p)
        if smooth and rng.random() < 0.6:
            a, ph, b = rng.uniform(1, amp), rng.uniform(0, 6.3), rng.uniform(-amp / 2, amp / 2)
            a3 = rng.uniform(0, amp / 2)
            s = [int(round(a * math.cos(2 * math.pi * t / nt + ph) + a3 * math.cos(6 * math.pi * t / nt)
                           + (0 if kind != 'full' else b))) for t in range(nt)]
        else:
            s = [rng.randint(-amp, amp) for _ in range(nt)]
        if kind == 'anti':
            s = s[:nt // 2] + [-v for v in s[:nt // 2]]
            # alternating sum vanishes on its own if nt/2 is even; otherwise adjust pairs
            if (nt // 2) % 2 == 1:
                h = nt // 2
                for _ in range(200):
                    alt = sum(v if i % 2 == 0 else -v for i, v in enumerate(s))
                    if alt == 0:
                        break
                    i = rng.randrange(h)
                    d = (1 if alt > 0 else -1) * (1 if i % 2 == 0 else -1)
                    s[i] -= d
                    s[i + h] += d
                if sum(v if i % 2 == 0 else -v for i, v in enumerate(s)):
                    continue
        else:
            s = fix_alt(rng, s, amp, kind == 'zeromean')
            if s is None:
                continue
        if max(abs(v) for v in s) <= 2 * amp:
            return s


def coefs(s, h):
    """coefficients of the series in the listed harmonics, harmonic by harmonic"""
    nt = len(s)
    c = []
    for k in h:
        if k == 0:
            c.append(sum(s) / nt)
        else:
            c.append(2 / nt * sum(v * math.cos(2 * math.pi * k * t / nt) for t, v in enumerate(s)))
            c.append(2 / nt * sum(v * math.sin(2 * math.pi * k * t / nt) for t, v in enumerate(s)))
    return c


def integral(c, h):
    """coefficients of the zero-mean antiderivative (fundamental frequency 1)"""
    out, i = [], 0
    for k in h:
        if k == 0:
            out.append(0.0)
            i += 1
        else:
            a, b = c[i], c[i + 1]          # a cos + b sin  ->  (a sin - b cos) / k
            out += [-b / k, a / k]
            i += 2
    return out


def check(s, h):
    """the listed harmonics do represent s"""
    nt = len(s)
    c = coefs(s, h)
    for t in range(nt):
        v, i = 0.0, 0
        for k in h:
            if k == 0:
                v += c[i]
                i += 1
            else:
                v += c[i] * math.cos(2 * math.pi * k * t / nt) + c[i + 1] * math.sin(2 * math.pi * k * t / nt)
                i += 2
        if abs(v - s[t]) > 1e-9:
            return False
    return True


def pack(cols, h):
    """global vector from per-dof coefficient lists: all dofs of a component, then the next"""
    return np.array(cols, dtype=float).T.reshape(-1)


if __name__ == '__main__':
    import random
    r = random.Random(0)
    for h, nt, sym in CHOICES:
        for _ in range(30):
            s = series(r, nt, sym)
            assert check(s, h), (h, nt, sym, s)
    print('ok')
