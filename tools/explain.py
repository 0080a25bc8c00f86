#!/usr/bin/env python3
# explain TRACE LINE [SPEC]: show the program around a rejected trace line (1-based) and the
# specification's state there.  A debugging aid; not used by the checks.
import sys, os, json, subprocess, tempfile, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
trace, line = sys.argv[1], int(sys.argv[2])
spec = sys.argv[3] if len(sys.argv) > 3 else 'TraceSignals2'
n = int(os.environ.get('N', '25'))
L = open(trace).read().splitlines()
a = line - 1
while a > 0 and '"e":"reset"' not in L[a]: a -= 1
prog = L[a:line]
k = len(prog)
for i, s in enumerate(prog):
    if i >= k - n or '"op"' in s and os.environ.get('OPS'): print(i + 1, re.sub(r'"', '', s))
d = tempfile.mkdtemp()
open(d + '/t.nd', 'w').write('\n'.join(prog) + '\n')
cfg = open(os.environ.get('CFG', HERE + '/spec/' + spec + '.cfg')).read() + '\nINVARIANT NotHere\n'
open(d + '/x.cfg', 'w').write(cfg.replace('POSTCONDITION', '\\*'))
src = open(HERE + '/spec/' + spec + '.tla').read()
src = re.sub(r'MODULE \w+', 'MODULE Xp', src, 1).replace('\n====', '\nNotHere == l # %d\n====' % k, 1)
open(d + '/Xp.tla', 'w').write(src)
for f in os.listdir(HERE + '/spec'):
    if f.endswith('.tla'): os.symlink(HERE + '/spec/' + f, d + '/' + f)
p = subprocess.run(['java', '-Xss64m', '-XX:+UseSerialGC', '-cp', '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar',
    'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE', '-metadir', d + '/md', '-config', 'x.cfg', 'Xp.tla'], cwd=d, env=dict(os.environ, TRACE=d + '/t.nd'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
out = p.stdout
i = out.rfind('State ')
print(out[i:][:6000] if i > 0 else out[-3000:])
subprocess.run(['rm', '-rf', d])
