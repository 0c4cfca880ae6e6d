#!/usr/bin/env python3
"""seedtest.py [-c] [-q] ID...: confirms planted bugs in a scratch copy (demo passes, patch applies, builds, passes the
stable tests, demo fails); -c also runs the check of their property; -q only the check."""
import json, os, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(os.path.join(V, 'seeded')))
flags = ''.join(a for a in sys.argv[1:] if a.startswith('-'))
ENV = dict(os.environ)
for kv in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env -0'], capture_output=True, text=True).stdout.split('\0'):
    if '=' in kv: ENV[kv.split('=', 1)[0]] = kv.split('=', 1)[1]
BASE = json.load(open('/opt/vp/BASELINE.json'))
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)
bad = 0
for s in args:
    d = os.path.join(V, 'seeded', s); meta = json.load(open(d + '/meta.json'))
    r = '/tmp/sd/' + s
    subprocess.run('rm -rf /tmp/sd/%s && mkdir -p /tmp/sd && cp -a /repo /tmp/sd/%s && git -C %s checkout -q -- .' % (s, s, r), shell=True, check=True)
    out = []
    if 'q' not in flags:
        p = sh('bash %s/demo.sh' % d, r)
        if p.returncode: out.append('DEMO FAILS ON CLEAN TREE: ' + (p.stdout + p.stderr)[-600:])
    p = sh('git apply %s/patch.diff' % d, r)
    if p.returncode: out.append('PATCH DOES NOT APPLY ' + p.stderr[-500:])
    if 'q' not in flags:
        p = sh('go build ./... && go vet ./pkg/... >/dev/null 2>&1; go build ./...', r)
        if p.returncode: out.append('DOES NOT BUILD ' + p.stderr[-500:])
        p = sh('mapfile -t pkgs < <(go list -e ./... | grep -vxFf /opt/vp/broker-packages.txt); go test -json -vet=off -count=1 "${pkgs[@]}"'.join(["bash -c '", "'"]), r)
        res = {}
        for l in p.stdout.splitlines():
            try: x = json.loads(l)
            except ValueError: continue
            if x.get('Test') and x['Action'] in ('pass', 'fail'): res[x['Package'] + '::' + x['Test']] = x['Action']
        fails = [k for k, v in res.items() if v == 'fail']
        if fails or len([v for v in res.values() if v == 'pass']) < 141: out.append('TESTS FAIL %s %d' % (fails[:5], len(res)))
        p = sh('bash %s/demo.sh' % d, r)
        if p.returncode == 0: out.append('DEMO PASSES WITH THE PATCH')
        else: print('   demo:', (p.stdout + p.stderr).strip()[-300:].replace('\n', ' | '))
    if 'c' in flags or 'q' in flags:
        p = subprocess.run(['python3', V + '/bin/check.py', meta['property']], env=dict(os.environ, VERIF_REPO=r), capture_output=True, text=True)
        why = [l for l in p.stdout.splitlines() if l][:1]
        out.append('check %s: exit %d %s' % (meta['property'], p.returncode, why if p.returncode == 1 else p.stderr[-300:]))
    print(s, meta['property'], out or 'ok', flush=True)
    subprocess.run('rm -rf /tmp/sd/%s' % s, shell=True)
