#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a spec and confirms it in a scratch copy.

The spec defines ID, PROPERTY, NEEDS, BREAKS, PKG, EDITS=[(file, old, new)], TEST (Go source of an
in-package test with functions TestZkSeed...), and optionally DEMO (a demo.sh) and RACE.
"""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
ID = spec['ID']
out = f'/verif/seeded/{ID}'
scratch = tempfile.mkdtemp(prefix='zkseed')
repo = scratch + '/repo'
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off')
try:
    subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
    for f, old, new in spec['EDITS']:
        p = f'{repo}/{f}'
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    patch = subprocess.check_output(['git', '-C', repo, 'diff']).decode()
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '.'])
    os.makedirs(out, exist_ok=True)
    open(out + '/patch.diff', 'w').write(patch)
    json.dump({'property': spec['PROPERTY'], 'needs': spec['NEEDS'], 'what_it_breaks': spec['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    pkg = spec['PKG']
    if 'TEST' in spec:
        open(out + '/demo_test.go', 'w').write(spec['TEST'])
        demo = f'''#!/bin/bash
# runs the in-package test beside this script against the code in the working directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp
echo "{{\\"Replace\\": {{\\"$PWD/{pkg}/zkseed_demo_test.go\\": \\"$here/demo_test.go\\"}}}}" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZkSeed' ./{pkg}
'''
    else:
        demo = spec['DEMO']
    open(out + '/demo.sh', 'w').write(demo)
    os.chmod(out + '/demo.sh', 0o755)

    def run(cmd):
        r = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return r.returncode, r.stdout.decode(errors='replace')
    n = spec.get('TIMES', 3)
    for i in range(n):
        rc, o = run(['bash', out + '/demo.sh'])
        assert rc == 0, 'demo fails on the unchanged tree:\n' + o[-3000:]
    subprocess.check_call(['git', '-C', repo, 'apply', out + '/patch.diff'])
    rc, o = run(['go', 'build', './...'])
    assert rc == 0, 'build fails:\n' + o
    rc, o = run(['go', 'test', '-vet=off', '-count=1', './...'])
    assert rc == 0, 'tests fail:\n' + o[-3000:]
    for i in range(n):
        rc, o = run(['bash', out + '/demo.sh'])
        assert rc != 0, 'demo passes with the patch'
    assert 'build failed' not in o and 'no test' not in o, o
    print(ID, 'ok:', o.strip()[-400:])
except BaseException:
    shutil.rmtree(out, ignore_errors=True)
    raise
finally:
    shutil.rmtree(scratch)
