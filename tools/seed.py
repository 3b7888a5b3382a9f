#!/usr/bin/env python3
"""seed.py ID PROP TARGET NEEDS WHAT < spec     author helper: makes /verif/seeded/ID from a change and a demo test.
spec (python): EDITS = [(file, old, new), ...]; DEMO = '...'
Confirms in a scratch copy that it builds, passes the stable tests, and that the demo tells the trees apart."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = sys.stdin.read(); g = {}; exec(src, g)
ID = g['ID']; D = f'{V}/seeded/{ID}'; S = '/tmp/sb'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh(f'rm -rf /tmp/sb; git -C /repo worktree prune'); shutil.copytree('/repo', S, symlinks=True)
for f, a, b in g['EDITS']:
    p = f'{S}/{f}'; t = open(p).read(); assert t.count(a) == g.get('COUNT', 1), (f, t.count(a), a); open(p, 'w').write(t.replace(a, b))
diff = sh(f'cd {S} && git diff').stdout
os.makedirs(D, exist_ok=True)
open(f'{D}/patch.diff', 'w').write(diff); open(f'{D}/demo_test.rs', 'w').write('\n#[cfg(test)]\nmod verif_demo {\n    #![allow(unused_imports)]\n    use super::*;\n' + g['DEMO'] + '\n}\n'); open(f'{D}/TARGET', 'w').write(g['TARGET'] + '\n')
shutil.copy(f'{V}/tools/demo.sh', f'{D}/demo.sh'); os.chmod(f'{D}/demo.sh', 0o755)
json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(f'{D}/meta.json', 'w'), indent=1)
r = sh(f'bash {D}/demo.sh', cwd='/repo'); print('unchanged demo rc', r.returncode); 
if r.returncode: print(r.stdout[-3000:]); sys.exit(1)
if '--nb' in sys.argv: sys.exit()
sh(f'git -C /repo apply {D}/patch.diff')
try:
    b = sh('bash /opt/vp/build.sh'); print('build', b.returncode)
    if b.returncode: print(b.stderr[-3000:]); sys.exit(1)
    t = sh('bash /opt/vp/test.sh /tmp/sb_out.json'); res = json.load(open('/tmp/sb_out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(f'bash {D}/demo.sh', cwd='/repo'); print('patched demo rc', r.returncode); print(r.stdout[-700:])
    c = sh(f'cd {V} && python3 check.py {g["PROP"]}'); print('check rc', c.returncode, c.stdout[-900:])
finally:
    sh('git -C /repo checkout -- .'); sh('rm -rf /tmp/sb'); sh('bash /opt/vp/build.sh')
names = base.get('stable') or base.get('passed') or base
bad = [n for n in (names if isinstance(names, list) else list(names)) if n not in res.get('passed', res)]
print('stable tests not passing:', bad[:5], 'of', len(names))
