"""onetrace.py DRIVER SPEC 'json consts' [PROP for models]: run driver + TLC unsharded, show TLC tail."""
import sys, os, json, subprocess, tempfile
sys.path.insert(0, '/verif/lib')
import vlib
d, spec, consts = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
p = '/tmp/onetrace.ndjson'
e = vlib.env_for_python()
ex = dict(consts)
if len(sys.argv) > 4: ex['beh'] = sys.argv[4]
r = subprocess.run(['/opt/venv/bin/python', '/verif/harness/' + d, p, os.environ.get('VERIF_TIER', 'quick'), os.environ.get('VERIF_SEED', '1'), json.dumps(ex)], env=e, cwd='/tmp')
print('driver rc', r.returncode)
e = dict(consts); e['TRACE'] = p
t = vlib.tlc(spec + '.tla', spec + '.cfg', env=e)
print(vlib.trim(t['out'], 6000))
