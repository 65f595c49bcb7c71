#!/usr/bin/env python3
"""trybug.py <id>...: confirms planted bugs (dev tool; works in /repo, which is restored).
Per bug: apply, build, tests, demo must fail, the check of its property is run; restore. At the end: demos on the clean tree."""
import sys, subprocess, json, os, time
V = '/verif'; SD = os.environ.get('SEEDED', V + '/seeded')
base = json.load(open('/opt/vp/BASELINE.json'))
stable = set(base.get('stable') or base.get('passed') or base.get('tests'))
def sh(c, t=1200, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, **k)
def restore(): sh('git -C /repo checkout -- .')
res = {}
ids = [a for a in sys.argv[1:] if not a.startswith('-')]
nocheck = '--nocheck' in sys.argv
for i in ids:
    d = os.path.join(SD, i); m = json.load(open(d + '/meta.json')); r = res[i] = {}
    assert not sh('git -C /repo status --porcelain').stdout
    try:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        if a.returncode: r['apply'] = a.stdout.decode()[-300:]; continue
        t = sh('bash /opt/vp/test.sh /tmp/bug-%s.json' % i)
        o = json.load(open('/tmp/bug-%s.json' % i))
        miss = sorted(stable - set(o['passed']))
        r['tests'] = 'ok' if not miss else 'FAILED %s' % miss[:5]
        if miss and len(miss) > 150: r['tests'] += t.stdout.decode()[-1500:]
        e = sh('bash %s/demo.sh' % d, 300, cwd='/repo')
        r['demo'] = e.returncode; r['demo_out'] = e.stdout.decode(errors='replace')[-400:]
        if not nocheck:
            t0 = time.time()
            c = sh('VERIF_EVIDENCE=/tmp/ev-bug python3 check.py %s' % m['property'], 1000, cwd=V)
            out = c.stdout.decode(errors='replace')
            r['check'] = (c.returncode, 'VIOLATION property=%s' % m['property'] in out, '%ds' % (time.time() - t0))
            r['lines'] = [l[:250] for l in out.split('\n') if 'not allowed' in l or 'crash' in l or 'VIOLATION' in l][:2] if c.returncode == 1 else out[-800:]
    finally:
        restore()
    print(i, json.dumps(r, indent=1), flush=True)
sh('bash /opt/vp/build.sh')
for i in ids:
    e = sh('bash %s/demo.sh' % os.path.join(SD, i), 300, cwd='/repo')
    res[i]['clean_demo'] = e.returncode
    if e.returncode: print(i, 'demo fails on clean tree', e.stdout.decode(errors='replace')[-1500:])
print('SUMMARY')
for i in ids: print(i, {k: v for k, v in res[i].items() if k not in ('lines', 'demo_out')}, flush=True)
