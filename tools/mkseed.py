#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: turn the current change of the scratch clone /tmp/w/seed/repo into /verif/seeded/ID
(patch.diff, demo.sh that builds demo.cpp, meta.json); confirms the demonstration on both trees."""
import json, os, subprocess, sys
sid, prop, needs, breaks = sys.argv[1:5]
demo = sys.stdin.read()
libs = sys.argv[5].split() if len(sys.argv) > 5 else []
BASE = 'bits util memory_management ram_fs ram_filebuf sfstream io config'.split()
R = '/tmp/w/seed/repo'
D = '/verif/seeded/' + sid
os.makedirs(D, exist_ok=True)
subprocess.run(['git', '-C', R, 'fetch', '-q', '/repo', 'HEAD'], check=True)
diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
assert diff.strip(), 'no change'
open(D + '/patch.diff', 'w').write(diff)
open(D + '/demo.cpp', 'w').write(demo)
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
inc=_build/include; [ -d "$inc/sdsl" ] || inc=include
I="-I include -I $inc $(ls -d external/*/include _build/external/*/include 2>/dev/null | sed 's/^/-I /' | tr '\\n' ' ')"
f=lib/structure_tree.cpp; [ -f $f ] || f=lib/structure_tree.cpp.cmake
sed "s|@PROJECT_SOURCE_DIR@|$PWD|" $f > "$t/structure_tree.cpp"
cp "$here/demo.cpp" "$t/demo.cpp"
printf '%%s\\n' $t/demo.cpp $t/structure_tree.cpp %s | xargs -P 8 -I@ sh -c 'g++ -std=c++11 -O1 -w '"$I"' -c @ -o '"$t"'/$(basename @).o' || exit 2
g++ -o "$t/demo" "$t"/*.o %s || exit 2
cd "$t" && timeout 100 ./demo
''' % (' '.join('lib/%s.cpp' % l for l in BASE + [x for x in libs if not x.startswith('-')]), ' '.join(x for x in libs if x.startswith('-'))))
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(D + '/meta.json', 'w'), indent=1)
def run(cwd):
    return subprocess.run(['bash', D + '/demo.sh'], cwd=cwd, capture_output=True, text=True, timeout=300)
a, b = run('/repo'), run(R)
print(sid, 'unchanged:', a.returncode, 'patched:', b.returncode, (a.stdout + a.stderr)[-600:] if a.returncode else '', b.stdout[-300:], b.stderr[-300:])
subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
