#!/usr/bin/env python3
"""Developer tool (not used by any check): builds /verif/seeded/<id> from a spec file.

A spec is a python file defining: ID, PROP, NEEDS, BREAKS, PKG (package dir), EDITS = [(file, old, new)], DEMO (Go test source
with func TestZZDemo).  The planted change is made in a scratch copy of /repo.
"""
import sys, os, json, subprocess, shutil, tempfile
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after its build. Exit 0: the property holds; nonzero: it does not.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$T/zz_demo_test.go\\"}}" > "$T/overlay.json"
go test %(flags)s-vet=off -overlay "$T/overlay.json" -count=1 -timeout 280s -run 'TestZZDemo' ./%(pkg)s
'''
def run(spec):
    g = {}
    exec(open(spec).read(), g)
    d = f"/verif/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    wt = tempfile.mkdtemp(prefix='plant')
    subprocess.run(['cp', '-a', '/repo/.', wt], check=True)
    for f, old, new in g['EDITS']:
        p = f"{wt}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True, check=True).stdout
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(DEMO_SH % dict(pkg=g['PKG'], flags=g.get('FLAGS', '')))
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo_test.go.txt', 'w').write(g['DEMO'])
    json.dump({"property": g['PROP'], "needs": g['NEEDS'], "what_it_breaks": g['BREAKS']}, open(f'{d}/meta.json', 'w'), indent=1)
    env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod -buildvcs=false', GOWORK='off')
    ok = True
    def sh(cmd, cwd, want0, what):
        nonlocal ok
        r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, env=env)
        good = (r.returncode == 0) == want0
        ok &= good
        print(f"{g['ID']}: {what}: {'ok' if good else 'WRONG'} (rc {r.returncode})")
        if not good: print((r.stdout + r.stderr)[-1500:])
    sh(f'bash {d}/demo.sh', '/repo', True, 'demo on the unchanged tree')
    sh(f'bash {d}/demo.sh', wt, False, 'demo on the planted tree')
    if '--notests' not in sys.argv:
        sh('go build ./... && go test -vet=off -count=1 $(go list ./... | grep -v math/csprng)', wt, True, 'tests on the planted tree')
    shutil.rmtree(wt)
    return ok
sys.exit(0 if all([run(s) for s in sys.argv[1:] if not s.startswith('--')]) else 1)
