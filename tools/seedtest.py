#!/usr/bin/env python3
"""seedtest.py ID... [--nocheck] [--notests]: in a scratch copy mounted over /repo in a private namespace, confirm that a planted change builds,
passes the stable tests, that its demo fails with it and passes without it, and run the property's quick check against it (development helper)."""
import sys, os, json, subprocess, shutil
V = '/verif'; SW = '/tmp/sw'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def ns(c): return sh("unshare -Urm sh -c 'mount --bind %s /repo && cd /repo && { %s; }'" % (SW, c))
def passed(x):
    for k in ('passed', 'pass', 'stable', 'tests'):
        if isinstance(x, dict) and k in x: return set(x[k])
ids = [a for a in sys.argv[1:] if not a.startswith('--')]
if not os.path.isdir(SW): sh('cp -a /repo ' + SW)
sh('cd %s && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % SW)
for i in ids:
    d = '%s/seeded/%s' % (V, i); m = json.load(open(d + '/meta.json')); pid = m['property']
    sh('git -C %s checkout -q -- .' % SW); dd = '/tmp/seeddemo'; shutil.rmtree(dd, ignore_errors=True); shutil.copytree(d, dd)
    for f in os.listdir(dd):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json': os.unlink(dd + '/' + f)
    clean = ns('sh %s/demo.sh' % dd)
    a = sh('git -C %s apply %s/patch.diff' % (SW, d))
    if a.returncode: print(i, 'PATCH DOES NOT APPLY', a.stdout); continue
    msg = 'demo clean rc=%d' % clean.returncode
    if clean.returncode: msg += clean.stdout[-600:]
    dm = ns('sh %s/demo.sh' % dd); msg += ' patched rc=%d [%s]' % (dm.returncode, dm.stdout.strip()[-150:])
    if '--notests' not in sys.argv:
        b = ns('bash /opt/vp/build.sh'); 
        if b.returncode: print(i, 'BUILD FAILED', b.stdout[-1500:]); continue
        t = ns('bash /opt/vp/test.sh /tmp/seedtest.json'); r = passed(json.load(open('/tmp/seedtest.json'))); bs = passed(json.load(open('/opt/vp/BASELINE.json')))
        msg += ' tests missing=%d %s' % (len(bs - r), sorted(bs - r)[:4])
    if '--nocheck' not in sys.argv:
        c = ns('cd /verif && ./check %s quick' % pid); msg += ' | check %s rc=%d: %s' % (pid, c.returncode, '; '.join(l.strip()[:230] for l in c.stdout.splitlines() if not l.startswith(('VIOLATION', 'mc:')))[:700])
    sh('git -C %s checkout -q -- .' % SW)
    print('== ' + i + ': ' + msg, flush=True)
