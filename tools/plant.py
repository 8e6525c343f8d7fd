"""plant.py ID PROPERTY FILE 'needs' 'breaks' < body
body: OLD text, a line '=====', NEW text, a line '=====', Python 2 demo (asserts; runs under Jython).
Several hunks: separate OLD/NEW groups by a line '-----' before the demo.
Checks in a scratch copy that the patch applies, stable tests pass and the demo tells apart."""
import sys, os, subprocess, shutil, json, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ident, prop, path, needs, breaks = sys.argv[1:6]
body = sys.stdin.read()
hunks, demo = body.rsplit('\n=====\n', 1)
d = tempfile.mkdtemp(prefix='plant')
w = d + '/repo'
shutil.copytree('/repo', w, symlinks=True)
for h in hunks.split('\n-----\n'):
    old, new = h.split('\n=====\n')
    f = path
    if old.startswith('FILE '):
        f, old = old.split('\n', 1)
        f = f[5:].strip()
    s = open(w + '/' + f).read()
    crlf = '\r\n' in s
    assert s.count(old) == 1 or (crlf and s.count(old.replace('\n', '\r\n')) == 1), ('not unique', s.count(old), old)
    if crlf and s.count(old) != 1:
        old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
    raw = open(w + '/' + f, newline='').read()
    open(w + '/' + f, 'w', newline='').write(raw.replace(old, new))
diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
out = HERE + '/seeded/' + ident
os.makedirs(out, exist_ok=True)
open(out + '/patch.diff', 'wb').write(diff)
open(out + '/demo.py', 'w').write(demo.lstrip('\n'))
open(out + '/demo.sh', 'w').write('''#!/bin/bash
# cwd: /repo; the demonstration runs under Jython with the tree imported as package cryptopy
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
ln -s "$PWD" "$T/cryptopy"
mkdir -p "$T/Crypto/Cipher" "$T/crypto"
cp "$H"/demo.py "$T/demo.py"
if [ -d "$H/stubs" ]; then cp -r "$H/stubs/." "$T/"; fi
cd "$T" || exit 1
export LC_ALL=C.UTF-8
unset CLASSPATH
JYTHONPATH="$T" timeout 250 /usr/bin/jython -B -Dpython.cachedir.skip=true demo.py
''')
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(out + '/meta.json', 'w'), indent=1)
if 'STUBS' in os.environ:
    shutil.copytree(HERE + '/stubs', out + '/stubs', dirs_exist_ok=True)


def demo_run(where):
    return subprocess.run(['bash', out + '/demo.sh'], cwd=where, capture_output=True, text=True)


a = demo_run('/repo')
b = demo_run(w)
ok = a.returncode == 0 and b.returncode != 0
print('demo clean rc=%d, patched rc=%d' % (a.returncode, b.returncode))
if a.returncode:
    print(a.stdout[-800:], a.stderr[-800:])
print(b.stderr[-300:])
shutil.rmtree(d)
if ok and 'NOTEST' not in os.environ:
    subprocess.run(['git', '-C', '/repo', 'apply', out + '/patch.diff'], check=True)
    try:
        subprocess.run(['bash', '/opt/vp/test.sh', '/tmp/plant.json'], capture_output=True)
        r = json.load(open('/tmp/plant.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        good = r.get('passed') or r.get('pass') or [k for k, v in r.items() if v in ('pass', 'passed', True)]
        miss = [x for x in base if x not in good]
        print('stable tests missing:', miss)
        ok = not miss
        if 'CHECK' in os.environ:
            c = subprocess.run(['python3-vt', HERE + '/check.py', prop], capture_output=True, text=True, cwd=HERE)
            print('check rc=%d' % c.returncode, '\n'.join(x[:300] for x in c.stdout.splitlines()[-4:]))
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
print('KEEP' if ok else 'REJECT')
if not ok:
    shutil.rmtree(out)
