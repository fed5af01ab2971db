#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS FILE OLD NEW [FILE OLD NEW ...] < demo.cpp : write /verif/seeded/ID (development helper). OLD must match exactly once."""
import sys, os, json, subprocess
a = sys.argv[1:]; i, pid, needs, breaks = a[:4]; e = a[4:]; W = '/tmp/sw'
g = lambda *c: subprocess.run(('git', '-C', W) + c, stdout=subprocess.PIPE, check=True).stdout
if not os.path.isdir(W): subprocess.check_call(['cp', '-a', '/repo', W])
g('fetch', '-q', '/repo', 'HEAD'); g('reset', '-q', '--hard', 'FETCH_HEAD')
for k in range(0, len(e), 3):
    p = os.path.join(W, e[k]); s = open(p, newline='').read(); crlf = '\r\n' in s; o, n = e[k+1], e[k+2]
    if crlf: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
    if s.count(o) != 1: print('OLD matches %d times in %s' % (s.count(o), e[k])); sys.exit(1)
    open(p, 'w', newline='').write(s.replace(o, n))
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'wb').write(g('diff', '--binary')); g('checkout', '-q', '--', '.')
json.dump({'property': pid, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
src = sys.stdin.read()
if src.strip(): open(d + '/demo.cpp', 'w').write(src)
open(d + '/demo.sh', 'w').write('''#!/bin/sh
# cwd = the repository, after its build; exit 0 when the property holds
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -r -f "$W"' EXIT
mkdir -p "$W/include/SAX"; printf '#define ARABICA_USE_EXPAT\\n#define ARABICA_HAVE_BOOST\\n' > "$W/include/SAX/ArabicaConfig.hpp"
L=$(find . -path './_build/*' -name 'libarabica.a' | head -1)
if [ -n "$L" ]; then SRCS="$L"; else SRCS=$(find src -name '*.cpp' | grep -v -i -e test -e Taggle); fi
g++ -std=c++14 -w -g0 -O0 -DARABICA_NOT_USE_PRAGMA_LINKER_OPTIONS -I"$W/include" -Iinclude "$H/demo.cpp" $SRCS -lexpat -o "$W/demo" || { echo "demo does not build"; exit 2; }
cd "$W" && timeout 100 ./demo
''')
