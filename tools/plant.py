"""plant.py SPEC.json: create seeded/<id>/ from {id, property, needs, what_it_breaks, file, edits:[[old,new]...], demo(cpp text), flags}"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -w -g %(flags)s -I include/eni -I tools/eni_crypto -I tools/eni_scrypt -I tools/eni_cli -I . "$d/demo.cpp" lib/*.cpp lib/json/*.cpp lib/diagnostic/*.cpp -o "$t/demo" %(libs)s
cd "$t"
export ASAN_OPTIONS=detect_leaks=0
timeout 120 ./demo
'''
def plant(b):
    d = V + '/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    w = '/tmp/plantwt'
    subprocess.run('rm -rf /tmp/plantwt && mkdir /tmp/plantwt && cd /repo && git archive HEAD | tar x -C /tmp/plantwt && cd /tmp/plantwt && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, check=True)
    for e in b['edits']:
        f, old, new = e if len(e) == 3 else [b['file']] + e
        s = open(w + '/' + f).read()
        assert s.count(old) == 1, (b['id'], f, old, s.count(old))
        open(w + '/' + f, 'w').write(s.replace(old, new))
    p = subprocess.run(['git', 'diff'], cwd=w, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in b:
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh', SH % {'flags': b.get('flags', '-fsanitize=address -fno-sanitize-recover=all'), 'libs': b.get('libs', '')}))
    else:
        open(d + '/demo.sh', 'w').write(b['sh'])
    os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(w)
if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns['BUGS']:
        plant(b); print('planted', b['id'])
