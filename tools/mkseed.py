"""mkseed.py ID PROPERTY FILE 'old' 'new' 'needs' 'what' : writes seeded/ID/{patch.diff,meta.json,demo.sh} (demo.py written separately)"""
import difflib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mk(id, prop, edits, needs, what):
    d = os.path.join(H, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    out = []
    by = {}
    for f, old, new in edits:
        by.setdefault(f, []).append((old, new))
    for f, es in by.items():
        s = open('/repo/' + f).read()
        t = s
        for old, new in es:
            assert t.count(old) == 1, (id, f, old, t.count(old))
            t = t.replace(old, new)
        out += list(difflib.unified_diff(s.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(os.path.join(d, 'patch.diff'), 'w').write(''.join(out))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    sh = os.path.join(d, 'demo.sh')
    open(sh, 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1\n'
                        'D=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(sh, 0o755)
    return d
