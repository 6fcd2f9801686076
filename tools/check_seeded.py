"""Which planted bugs change (or remove) lines of the original repository, as they must."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
root = subprocess.check_output(['git', '-C', R, 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
base = subprocess.run(['git', '-C', R, 'rev-parse', 'vcheck-base'], capture_output=True, text=True)
for id in sorted(os.listdir(f'{V}/seeded')):
    d = f'{V}/seeded/{id}/patch.diff'
    ok = subprocess.run(['git', '-C', R, 'apply', '--check', d]).returncode == 0
    old = []
    f = None
    for l in open(d):
        if l.startswith('--- a/'):
            f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m[1])
        elif l.startswith('-') and not l.startswith('---'):
            old.append((f, n)); n += 1
        elif l.startswith(' '):
            n += 1
    orig = 0
    for f, n in old:
        b = subprocess.check_output(['git', '-C', R, 'blame', '-s', '-L', f'{n},{n}', 'HEAD', '--', f], text=True)
        orig += b.startswith('^')
    print(id, 'applies' if ok else 'DOES NOT APPLY', f'{orig} of {len(old)} removed lines are original', '' if orig else '<<<')
