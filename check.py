#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: property held on everything explored; exit 1 + VIOLATION line otherwise.
"""
import os, sys, json, time, argparse, subprocess, signal, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True
from concurrent.futures import ThreadPoolExecutor
import vlib
from registry import PROPS

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def run_driver(driver, path, tier, seed, extra, limit):
    cmd = [PY, os.path.join(vlib.VERIF, 'harness', driver), path, tier, str(seed), json.dumps(extra)]
    err = open(path + '.err', 'w+')
    e = vlib.env_for_python()
    e['MPLCONFIGDIR'] = os.path.dirname(path)
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), env=e, stdout=subprocess.DEVNULL,
                         stderr=err, start_new_session=True)
    try:
        p.wait(timeout=limit)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        rc = 'TIMEOUT'
    err.seek(0)
    return rc, err.read()[-3000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        tier, seed, only = r['tier'], r['seed'], r['key']
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(vlib.OUT, exist_ok=True)
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='%s_' % prop, dir=vlib.OUT)
    states = trans = cases = events = 0
    nontriv = 0
    samples, rejects, mnotes, kinds = [], [], {}, {}
    driver_limit = 420 if tier == 'quick' else 5400
    try:
        behaviours = {}
        # 1. design models (exhaustive, and generation of behaviours)
        for m in P.get('models', []):
            if tier not in m.get('tiers', ('quick', 'thorough')):
                continue
            res = vlib.tlc(m['spec'] + '.tla', m['cfg'] + '.cfg', timeout=600 if tier == 'quick' else 3600,
                           workers=m.get('workers', '1'), env=m.get('env'), extra=m.get('extra', ()))
            if res['rc'] != 0 or 'No error has been found' not in res['out']:
                print('model %s failed:\n%s' % (m['cfg'], res['out'][-3000:]))
                return 2
            states += res['states']
            trans += res['transitions']
            mnotes['model ' + m['cfg']] = dict(states=res['states'], transitions=res['transitions'])
            if m.get('gen'):
                bs = []
                for l in res['out'].split('\n'):
                    if l.startswith('<<"BEH", "'):
                        bs.append(json.loads(json.loads(l[len('<<"BEH", '):-2])))
                behaviours[m['gen']] = bs
                mnotes['behaviours ' + m['gen']] = len(bs)
        if behaviours:
            json.dump(behaviours, open(os.path.join(scratch, 'beh.json'), 'w'))
        # 2. drivers on the real code, 3. trace validation
        def launch(i):
            driver, spec, consts = P['drivers'][i]
            path = os.path.join(scratch, 'd%d' % i, 'trace.ndjson')
            os.makedirs(os.path.dirname(path))
            extra = dict(consts)
            if behaviours:
                extra['beh'] = os.path.join(scratch, 'beh.json')
            return path, run_driver(driver, path, tier, seed, extra, driver_limit)
        with ThreadPoolExecutor(6) as pool:
            driven = list(pool.map(launch, range(len(P['drivers']))))
        for i, (driver, spec, consts) in enumerate(P['drivers']):
            path, (rc, err) = driven[i]
            if rc != 0:
                last = '?'
                try:
                    for l in open(path):
                        if l.startswith('{"op": "begin"'):
                            last = json.loads(l)['key']
                except Exception:
                    pass
                rejects.append((last, 'driver ended with %s' % rc, [err]))
                if not os.path.exists(path + '.meta'):
                    continue
            meta = json.load(open(path + '.meta'))
            for l in open(path):
                op = json.loads(l)['op']
                kinds[driver + '.' + op] = kinds.get(driver + '.' + op, 0) + 1
            if meta['cases'] == 0:
                continue
            c = {k: str(v) for k, v in consts.items()}
            res = vlib.validate_traces(spec, path, c, shards=P.get('shards', 6),
                                       timeout=400 if tier == 'quick' else 5400)
            states += res['states']
            trans += res['transitions']
            cases += res['cases']
            events += meta['events']
            nontriv += meta['nontrivial']
            samples += meta['samples'][:3]
            mnotes.update({'%s%s.%s' % (driver, i or '', k): v for k, v in meta['notes'].items()})
            for c_, l_, why, part in res['rejects']:
                ev = [json.loads(x) for x in part if json.loads(x)['case'] == c_]
                rejects.append((ev[0]['key'], why, ev[:400]))
            if tier == 'quick' and not rejects and cases == 0:
                print('no case was validated')
                return 2
        mnotes['events of each kind'] = kinds
        if only is not None:
            rejects = [r for r in rejects if r[0] == only]
        known = vlib.known_findings()
        new, seen = [], set()
        for key, why, ev in rejects:
            k = [f for f in known if f[0] == prop and f[1] == key.replace(' ', '') and f[2] == why]
            if k:
                if k[0] not in seen:
                    seen.add(k[0])
                    print('KNOWN-FINDING: property=%s %s' % (prop, k[0][3]))
            else:
                new.append((key, why, ev))
        cov = dict(states=states, transitions=trans, traces_validated_against_impl=cases,
                   samples=samples or ['none'], evaluations=events, distinct_nontrivial=nontriv,
                   rule=P['rule'], exhaustive=False, detail=mnotes)
        json.dump(dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed,
                       level='model_checking', coverage=cov,
                       assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 2),
                       violations=len(new)),
                  open(os.path.join(vlib.VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
        if new:
            groups = {}
            for key, why, ev in new:
                groups.setdefault(why, []).append((key, ev))
            for j, (why, ks) in enumerate(groups.items()):
                if j >= 8:
                    break
                rp = os.path.join(vlib.OUT, 'replay_%s_%d.json' % (prop, j))
                json.dump(dict(property=prop, tier=tier, seed=seed, key=ks[0][0], clause=why,
                               cases_affected=len(ks), events=ks[0][1],
                               rerun='python3 check.py %s --replay %s' % (prop, rp)),
                          open(rp, 'w'), indent=0)
                print('rejected clause: %s  (%d cases, first: %s)' % (why, len(ks), ks[0][0][:300]))
                print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1
        print('%s: held; %d traces, %d events, %d states, %.1f s' % (prop, cases, events, states, time.time() - t0))
        return 0
    except vlib.MachineryError as ex:
        print('machinery error:', ex)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print('kept', scratch)


if __name__ == '__main__':
    sys.exit(main())
