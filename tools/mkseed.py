"""Plant one bug: mkseed.py SPEC.py   (SPEC: id, prop, edits=[(file, old, new)...], demo (C text), needs, breaks, libs='')
Writes seeded/<id>/, then confirms it in /repo's tree: applies, builds, stable tests, demo both ways, the check; undoes it."""
import json, os, subprocess, sys, re
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    sh('bash /opt/vp/test.sh /tmp/seed/out.json', timeout=300)
    o = json.load(open('/tmp/seed/out.json'))
    p = set(o.get('passed', []))
    return [t for t in base if t not in p]
def main(spec):
    s = {}
    exec(open(spec).read(), s)
    d = '/verif/seeded/' + s['id']
    assert sh('git -C /repo status --porcelain').stdout == '', 'repo dirty'
    os.makedirs(d, exist_ok=True)
    first = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    base = sh("git -C /repo log --format=%H --invert-grep --grep='^fix:' -1").stdout.strip()
    try:
        for f, old, new in s['edits']:
            p = R + '/src/libzt/' + f
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        # changed lines must be original ones
        for f in {e[0] for e in s['edits']}:
            orig = sh('git -C /repo show %s:src/libzt/%s' % (base, f)).stdout.split('\n')
            rem = [l[1:] for l in open(d + '/patch.diff').read().split('\n') if l.startswith('-') and not l.startswith('---')]
            for l in rem:
                if l not in orig: print('  NOT ORIGINAL:', l)
        open(d + '/demo.c', 'w').write(s['demo'])
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w -g -D_GNU_SOURCE -DHAVE_CONFIG_H -DHAVE_PTHREADS -I"$PWD/src" -I"$PWD/_build/src" "$d/demo.c" "$PWD/_build/src/libzt/libzt.a" -lpthread -lm -o "$t/demo" || exit 2
cd "$t" && timeout 60 ./demo
''' if 'demo_sh' not in s else s['demo_sh'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        print(s['id'], 'build', b.returncode, end=' ')
        if b.returncode: print(b.stdout[-800:], b.stderr[-500:])
        print('broken tests', tests(), end=' ')
        r = sh('bash %s/demo.sh' % d, cwd=R)
        print('demo patched', r.returncode, r.stdout[-200:], r.stderr[-300:], end=' ')
        if '--nocheck' not in sys.argv:
            c = sh('cd /verif && timeout 900 ./check %s' % s['prop'])
            print('CHECK', s['prop'], 'rc', c.returncode, [l for l in (c.stdout + c.stderr).split('\n') if 'violated' in l or 'VIOLATION' in l or 'quick:' in l][:3])
    finally:
        sh('git -C /repo checkout -- .')
    b = sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=R)
    print('   demo unpatched', r.returncode, r.stdout[-300:], r.stderr[-300:])
for spec in [a for a in sys.argv[1:] if not a.startswith('-')]:
    try:
        main(spec)
    except Exception as e:
        print(spec, 'ERROR', e)
