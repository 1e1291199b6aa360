"""every line a seed removes must be in the original repository (first commit of /repo)"""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[0]
for d in sorted(os.listdir(H + '/seeded')):
    f = None
    for l in open(f'{H}/seeded/{d}/patch.diff'):
        if l.startswith('--- '):
            f = l[6:].strip()
            src = subprocess.run(['git', '-C', '/repo', 'show', f'{base}:{f}'], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('-') and l[1:].rstrip('\n') not in src:
            print(d, 'NOT ORIGINAL:', l.strip())
