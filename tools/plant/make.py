#!/usr/bin/env python3
"""make.py [ids...]: build /verif/seeded/<id> from defs, verify in a scratch copy, run the check."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import importlib
BUGS = {}
def bug(id, prop, edits, demo, needs, breaks):
    assert id not in BUGS, id
    BUGS[id] = (prop, edits, demo, needs, breaks)
import builtins; builtins.bug = bug
for f in sorted(os.listdir(HERE)):
    if f.startswith('defs') and f.endswith('.py'):
        importlib.import_module(f[:-3])
PRE = open(HERE + '/prelude.py').read()
SH = '''#!/bin/bash
# exits 0 if the behaviour holds; run with cwd = the repository
here="$(cd "$(dirname "$0")" && pwd)"
exec /opt/venv/bin/python -B -W ignore "$here/demo.py"
'''
W = os.environ.get('BUGW', '/tmp/bugw')
STABLE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('tests') or [])
def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
def main(ids, check=True):
    for id in ids:
        prop, edits, demo, needs, breaks = BUGS[id]
        shutil.rmtree(W, ignore_errors=True)
        run('cp -a /repo %s' % W)
        ok = True
        for f, old, new in edits:
            p = os.path.join(W, 'src/dispersion', f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, 'EDIT MISMATCH', f, s.count(old), repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok: continue
        d = run('git -C %s diff' % W).stdout
        dst = '/verif/seeded/%s' % id
        os.makedirs(dst, exist_ok=True)
        open(dst + '/patch.diff', 'w').write(d)
        open(dst + '/demo.py', 'w').write(PRE + demo)
        open(dst + '/demo.sh', 'w').write(SH); os.chmod(dst + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(dst + '/meta.json', 'w'), indent=1, ensure_ascii=False)
        # original lines touched?
        orig = 0
        base = run('git -C /repo blame -s HEAD -- ' + ' '.join([])).stdout
        for f in {e[0] for e in edits}:
            bl = run('git -C /repo blame -s 4587076..HEAD -- src/dispersion/%s' % f).stdout.splitlines()
            mine = {i for i, l in enumerate(bl, 1) if not l.startswith('^')}
            ln = 0
            for l in run('git -C %s diff -U0 -- src/dispersion/%s' % (W, f)).stdout.splitlines():
                if l.startswith('@@'):
                    ln = int(l.split()[1][1:].split(',')[0])
                elif l.startswith('-') and not l.startswith('---'):
                    if ln not in mine: orig += 1
                    ln += 1
        t = run('cd %s && PYTHONPATH=src PYTHONDONTWRITEBYTECODE=1 HOME=/tmp/bughome /opt/venv/bin/python -W ignore -m pytest -v -p no:cacheprovider tests 2>&1' % W)
        got = {l.split()[0].replace('.py::', '::').replace('/', '.') for l in t.stdout.splitlines() if ' PASSED' in l}
        passed = 'ok' if STABLE <= got else 'FAIL %s' % sorted(STABLE - got)[:3]
        a = run('bash %s/demo.sh' % dst, cwd='/repo')
        b = run('bash %s/demo.sh' % dst, cwd=W)
        line = '%s %s orig=%d tests=%s demo clean=%d bug=%d' % (id, prop, orig, passed, a.returncode, b.returncode)
        if a.returncode or not b.returncode:
            line += '\n   CLEAN: ' + (a.stdout + a.stderr)[-400:] + '\n   BUG: ' + (b.stdout + b.stderr)[-400:]
        else:
            line += '   ' + ((b.stdout + b.stderr).strip().splitlines() or [''])[-1][:120]
        if check:
            c = run('SIM_REPO=%s python3 check.py %s' % (W, prop), cwd='/verif')
            line += '\n   CHECK exit=%d %s' % (c.returncode, (c.stdout + c.stderr).strip()[:300].replace('\n', ' | '))
        print(line, flush=True)
    shutil.rmtree(W, ignore_errors=True)
if __name__ == '__main__':
    args = sys.argv[1:]
    check = '--nocheck' not in args
    args = [a for a in args if not a.startswith('--')]
    main([i for i in BUGS if not args or any(i.startswith(a) for a in args)], check)
