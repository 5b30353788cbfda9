#!/usr/bin/env python3
"""Development helper: create and validate planted bugs.

usage: mkbug.py SPEC.py [id ...]    SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)],
needs, what, demo)]; writes seeded/<id>/ and validates it in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
PY = '/opt/venv/bin/python'
DEMO_SH = '''#!/bin/bash
# cwd: the repository. Exit 0: behaviour as promised; non-zero: property broken.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python -W ignore "$D/demo.py"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)

def scratch(tag):
    d = tempfile.mkdtemp(prefix='bt_%s_' % tag, dir='/tmp')
    subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
    return d

def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    r = sh('%s -m pytest -q -p no:cacheprovider --timeout=100 --ignore=katcp/test/test_resource_client.py '
           'katcp 2>&1 | tail -15' % PY, cwd=repo, env=env)
    bad = [l for l in r.stdout.splitlines() if l.startswith(('FAILED', 'ERROR'))
           and 'test_no_memory_leak_invalid_server_no_reconnect' not in l]
    return bad, r.stdout

def validate(bid, with_tests=True):
    d = os.path.join(HERE, 'seeded', bid)
    s = scratch(bid)
    repo = s + '/repo'
    try:
        a = sh('git apply %s/patch.diff' % d, cwd=repo)
        if a.returncode:
            return 'patch does not apply: ' + a.stdout
        clean = sh('bash %s/demo.sh' % d, cwd='/repo')
        if clean.returncode:
            return 'demo fails on clean tree: ' + clean.stdout[-1500:]
        pat = sh('bash %s/demo.sh' % d, cwd=repo)
        if pat.returncode == 0:
            return 'demo passes with patch: ' + pat.stdout[-1500:]
        sys.stdout.write('  demo says: %s\n' % pat.stdout.strip().splitlines()[-1:])
        if with_tests:
            bad, out = tests(repo)
            if bad:
                return 'tests fail: ' + '\n'.join(bad)
        meta = json.load(open(d + '/meta.json'))
        prop = meta['property']
        if os.path.exists(os.path.join(HERE, 'props', prop.lower() + '.py')):
            r = sh('%s run.py %s --tier quick --no-minimise' % (PY, prop), cwd=HERE,
                   env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED='1'))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            sys.stdout.write('  check exit %d %s\n' % (r.returncode, v[:1] or r.stdout[-300:]))
            open('/tmp/mk/%s.log' % bid, 'w').write(r.stdout)
            return 'ok CAUGHT' if r.returncode == 1 and v else 'ok MISSED'
        return 'ok (no check)'
    finally:
        shutil.rmtree(s)

if __name__ == '__main__':
    if sys.argv[1] == '--validate':
        for b in sys.argv[2:]:
            print(b, validate(b, False)); sys.stdout.flush()
        sys.exit()
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]:
            continue
        d = os.path.join(HERE, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        s = scratch('mk')
        repo = s + '/repo'
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                print(b['id'], 'edit matches', t.count(old), 'times:', old[:60]); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if ok:
            open(d + '/patch.diff', 'w').write(sh('git diff', cwd=repo).stdout)
            open(d + '/demo.sh', 'w').write(DEMO_SH)
            open(d + '/demo.py', 'w').write(b['demo'])
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']},
                      open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(s)
        if ok:
            print(b['id'], validate(b['id'])); sys.stdout.flush()
