"""append 'fixed:' lines for fix: commits of /repo not yet recorded.  usage: addfixed.py PROP [n]  (the last n unrecorded)"""
import subprocess, sys
known = open('/verif/known_findings.txt').read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '--grep=^fix:'], capture_output=True, text=True).stdout
new = [l for l in log.splitlines() if l.split()[0] not in known]
out = []
for l in new:
    h, m = l.split(' ', 1)
    out.append((h, m[5:]))
if len(sys.argv) < 2:
    for h, m in out: print(h, m)
else:
    pick = sys.argv[2:]
    with open('/verif/known_findings.txt', 'a') as f:
        for h, m in out:
            if not pick or h in pick:
                f.write('fixed: property=%s %s %s\n' % (sys.argv[1], h, m))
