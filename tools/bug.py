#!/usr/bin/env python3
"""bug.py <id> <spec.json>: makes /verif/seeded/<id> from {property, needs, what_it_breaks, edits: [[file, old, new]], demo: C++ text, flags} after confirming it in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s -std=c++17 -g %s -ICode/Json4C4 -ICode/Terathon "$here/demo.cpp" Code/Json4C4/C4Json.cpp Code/Terathon/TS*.cpp -o "$tmp/demo" %s || exit 2
cd "$tmp" && %s./demo
'''


def sh(cmd, cwd, check=False, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    if check and p.returncode:
        sys.exit('FAILED %s\n%s' % (cmd, (p.stdout + p.stderr)[-3000:]))
    return p


def main():
    bid, spec = sys.argv[1], json.load(open(sys.argv[2]))
    d = os.path.join(HERE, 'seeded', bid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='bug')
    try:
        sh('git clone -q /repo %s/r' % w, w, True)
        r = w + '/r'
        for f, old, new in spec['edits']:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                sys.exit('%s: %d matches of %r' % (f, t.count(old), old))
            open(os.path.join(r, f), 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        base = '042f36a'
        # the lines removed must be lines of the original repository
        for f in {e[0] for e in spec['edits']}:
            orig = set(x.strip() for x in sh('git show %s:%s' % (base, f), r).stdout.split('\n'))
            ch = [l[1:].strip() for l in sh('git diff -- %s' % f, r).stdout.split('\n') if l.startswith('-') and not l.startswith('---')]
            print(f, 'removed lines:', len(ch), 'not original:', [c for c in ch if c and c not in orig])
        open(d + '/demo.cpp', 'w').write(spec['demo'])
        open(d + '/demo.sh', 'w').write(SH % (spec.get('cxx', 'g++'), spec.get('flags', '-O1 -fsanitize=address,undefined -fno-sanitize-recover=all'), spec.get('ld', ''), spec.get('run', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['what_it_breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dd = w + '/demo'
        shutil.copytree(d, dd)
        p = sh('bash %s/demo.sh' % dd, r)
        print('with the change: demo', p.returncode, (p.stdout + p.stderr)[-400:])
        if p.returncode == 0 or 'error:' in p.stderr:
            sys.exit('demo does not fail')
        p = sh('cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && cmake --build _build -j 8', r)
        if p.returncode:
            sys.exit('does not build\n' + p.stdout[-2000:] + p.stderr[-2000:])
        p = sh('rm -rf %s/_build/bin/Data; cmake -E copy_directory Data _build/bin/Data; ctest --test-dir _build -j 8 --timeout 60' % r, r)
        print('tests:', [l for l in p.stdout.split('\n') if 'tests passed' in l])
        if p.returncode:
            print('TESTS FAIL', p.stdout[-1500:])
        sh('git checkout -q -- .', r, True)
        p = sh('bash %s/demo.sh' % dd, r)
        print('unchanged: demo', p.returncode, (p.stdout + p.stderr)[-600:])
        if p.returncode:
            sys.exit('DEMO FAILS ON UNCHANGED')
    finally:
        shutil.rmtree(w)


main()
