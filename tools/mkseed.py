#!/usr/bin/env python3
"""Plants one bug in /repo, confirms it (build, stable tests, demo both ways), runs the check, stores it under seeded/.
usage: mkseed.py SPEC.py   where SPEC defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)]"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
ns = {}; exec(open(sys.argv[1]).read(), ns); only = sys.argv[2:]
DEMO = '''#!/bin/bash
# exit 0: the property held on the demonstration, non-zero: it did not
D="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -r -- "$T"' EXIT
clang++-18 -stdlib=libc++ -std=gnu++14 -pthread -O1 -w -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -U_MSC_VER -fno-delayed-template-parsing -include "$D/gnuc_macros.h" -include utility %s -I include -I experimental/include "$D/demo.cpp" $(find src -name '*.cpp') -o "$T/demo" || exit 2
timeout 60 "$T/demo"
'''
def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    d = os.path.join(V, 'seeded', s['id']); assert run(['git', '-C', R, 'status', '--porcelain', '-uno']).stdout == '', 'dirty'
    ok = False; msg = ''
    try:
        for f, old, new in s['edits']:
            p = os.path.join(R, f); b = open(p, 'rb').read().decode('latin1')
            crlf = '\r\n' in b
            if b.count(old) != 1 and crlf: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if b.count(old) != 1: msg = 'edit matches %d times' % b.count(old); raise KeyError
            open(p, 'wb').write(b.replace(old, new).encode('latin1'))
        patch = subprocess.run(['git', '-C', R, 'diff', '--binary'], stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True); open(d + '/patch.diff', 'wb').write(patch); open(d + '/demo.cpp', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(DEMO % s.get('flags', '')); os.chmod(d + '/demo.sh', 0o755); shutil.copy(V + '/rt/gnuc_macros.h', d)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r = run(['bash', '/opt/vp/test.sh', '/tmp/seed_o.json'])
        passed = set(json.load(open('/tmp/seed_o.json'))['passed']); miss = base - passed
        if miss: msg = 'tests fail: ' + ', '.join(sorted(miss)[:5])
        else:
            dp = run([d + '/demo.sh'], cwd=R); msg = 'demo patched %d %s' % (dp.returncode, dp.stdout.strip()[-150:]); ok = dp.returncode != 0 and dp.returncode != 2
            c = run([V + '/check.py', s['prop'], '--tier', 'quick'], cwd=V); vl = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
            print(s['id'], 'CHECK', s['prop'], 'exit', c.returncode, vl[:2], [l for l in c.stdout.split('\n') if 'wall' in l])
            caught = c.returncode == 1 and any('VIOLATION property=' + s['prop'] in l for l in vl)
    except KeyError: pass
    finally: run(['git', '-C', R, 'checkout', '--', '.'])
    if ok:
        du = run([d + '/demo.sh'], cwd=R); msg += ' | unpatched %d %s' % (du.returncode, du.stdout.strip()[-100:]); ok = du.returncode == 0
    print(s['id'], 'OK' if ok else 'REJECTED', msg, flush=True)
    if ok:
        cf = V + '/tools/caught.json'; cj = json.load(open(cf)) if os.path.exists(cf) else {}; cj[s['id']] = caught; json.dump(cj, open(cf, 'w'), indent=1, sort_keys=True)
    if not ok and os.path.isdir(d): shutil.rmtree(d)
