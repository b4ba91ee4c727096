#!/usr/bin/env python3
"""corrupt.py PROPERTY [CASES] [SEED]: sensitivity of a trace specification.

Records the traces of a check, changes one recorded integer (or flips one boolean) in one event per
case, judges the changed traces and prints, per kind of event and field, how many changed cases are
rejected.  Fields with 0 rejections are context (sizes, tags) or are not judged.
"""
import os, sys, json, random, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import vlib
from registry import PROPS


def leaves(x, path=()):
    if isinstance(x, bool) or isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, dict):
        for k, v in x.items():
            if k not in ('case', 'op', 'key'):
                yield from leaves(v, path + (k,))


def field(p):
    return '.'.join('*' if isinstance(k, int) else k for k in p)


def change(x, p, rng):
    for k in p[:-1]:
        x = x[k]
    v = x[p[-1]]
    if isinstance(v, bool):
        x[p[-1]] = not v
    else:
        x[p[-1]] = v + rng.choice([-1, 1]) * max(1, abs(v) // 50)


def main():
    prop = sys.argv[1]
    rounds = int(sys.argv[2]) if len(sys.argv) > 2 else 400
    rng = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    out = subprocess.run([sys.executable, os.path.join(V, 'check.py'), prop, '--keep'], stdout=subprocess.PIPE, text=True).stdout
    kept = [l.split()[1] for l in out.splitlines() if l.startswith('kept ')][0]
    stats = {}
    for i, (driver, spec, consts) in enumerate(PROPS[prop]['drivers']):
        path = os.path.join(kept, 'd%d' % i, 'trace.ndjson')
        cases = {}
        for l in open(path):
            e = json.loads(l)
            cases.setdefault(e['case'], []).append(e)
        pick, new = [], 0
        tmp = os.path.join(kept, 'bad%d.ndjson' % i)
        what = {}
        cases = {c: ev for c, ev in cases.items() if len(json.dumps(ev)) < 400000}
        with open(tmp, 'w') as f:
            for _ in range(rounds):
                ev = json.loads(json.dumps(cases[rng.choice(list(cases))]))
                new += 1
                # first a field, then one of its places, so that long arrays do not dominate
                fields = {}
                for j, e in enumerate(ev):
                    for p in leaves(e):
                        fields.setdefault((e['op'], field(p)), []).append((j, p))
                if fields:
                    k = rng.choice(sorted(fields))
                    j, p = rng.choice(fields[k])
                    change(ev[j], p, rng)
                    what[new] = '%s %s:%s' % (driver, k[0], k[1])
                for e in ev:
                    e['case'] = new
                    o = dict(op=e.pop('op'))
                    o.update(e)
                    f.write(json.dumps(o) + '\n')
        # every case alone would be slow; an evaluation error ends its shard, so use many shards
        rej = set()
        parts = vlib._split(tmp, max(1, rounds // 25))
        for part in parts:
            pp = tmp + '.p'
            while part:
                open(pp, 'w').write('\n'.join(part) + '\n')
                try:
                    r = vlib.validate_traces(spec, pp, {k: str(v) for k, v in consts.items()}, shards=1)
                except vlib.MachineryError:
                    break
                dom = [x for x in r['rejects'] if x[1] == 0]
                rej |= {x[0] for x in r['rejects'] if x[1] != 0}
                if not dom:
                    break
                # leave out the first case not judged yet that left the domain: bisect by halves
                ids = []
                for l in part:
                    c = json.loads(l)['case']
                    if not ids or ids[-1] != c:
                        ids.append(c)
                if len(ids) == 1:
                    rej.add(ids[0])
                    break
                h = set(ids[:len(ids) // 2])
                a = [l for l in part if json.loads(l)['case'] in h]
                b = [l for l in part if json.loads(l)['case'] not in h]
                parts.append(a)
                part = b
        for c, w in what.items():
            s = stats.setdefault(w, [0, 0])
            s[0] += 1
            s[1] += c in rej
    tot = [sum(v[k] for v in stats.values()) for k in (0, 1)]
    for w in sorted(stats):
        print('%-60s %4d changed %4d rejected' % (w, *stats[w]))
    print('%s: %d of %d changed cases rejected' % (prop, tot[1], tot[0]))
    shutil.rmtree(kept, ignore_errors=True)


if __name__ == '__main__':
    main()
