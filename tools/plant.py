#!/usr/bin/env python3
"""Developer helper: confirm a planted bug. plant.py SPEC.py [names...]

SPEC defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=C++ text, needs, what_it_breaks)].
Applies the edits in /repo, builds, runs the stable tests, the demo and the property's check, undoes the edits, and
keeps the bug under /verif/seeded/<id>."""
import json, os, runpy, subprocess, sys
R = '/repo'
DEMO = '''#!/bin/bash
# Exit 0: the behaviour is intact. Run with cwd /repo, after the build.
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
K=$PWD/knp
B=$PWD/_build
g++ -std=c++17 -O1 -w -DSPDLOG_FMT_EXTERNAL -DFMT_SHARED -DSPDLOG_ACTIVE_LEVEL=6 -DNDEBUG \\
  -I$K/core-library/include -I$K/core-library/impl -I$K/neuron-traits-library/include -I$K/meta-library/include \\
  -I$K/synapse-traits-library/include -I$K/base-framework/include -I$K/base-framework/impl \\
  -I$K/backends/cpu/cpu-library/include -I$K/backends/cpu/cpu-library/impl -I$K/backends/cpu/thread_pool/include \\
  -I$K/backends/cpu/cpu-devices/include -I$K/backends/cpu/cpu-single-threaded-backend/include \\
  -I$K/backends/cpu/cpu-multi-threaded-backend/include -isystem /usr/include/opencv4 \\
  $(find $B -path '*core-library*' -name '*_generated.h' -printf '-I%h ' | tr ' ' '\\n' | sort -u | tr '\\n' ' ') \\
  "$H/demo.cpp" -o "$T/demo" \\
  $B/lib/libknp-base-framework-core.a $B/lib/libknp-cpu-multi-threaded-backend.a $B/lib/libknp-cpu-single-threaded-backend.a \\
  $B/lib/libknp-thread-pool-library.a $B/lib/libknp-cpu-devices.a $B/lib/libknp-core.a $B/lib/libknp-base-framework-core.a $B/lib/libknp-core.a \\
  EXTRALIBS || exit 99
cd "$T"
timeout 120 "$T/demo"
'''
LIBS = '-lspdlog -lfmt -lzmq -lboost_filesystem -lboost_system -lpthread -ldl'


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    names = sys.argv[2:]
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    todo = [b for b in bugs if not names or b['id'] in names]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    for b in todo:
        d = '/verif/seeded/' + b['id']
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.cpp', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO.replace('EXTRALIBS', b.get('libs', LIBS)))
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['what_it_breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
    print('build clean', sh('bash /opt/vp/build.sh').returncode)
    for b in todo:
        r = sh(['bash', '/verif/seeded/%s/demo.sh' % b['id']], cwd=R)
        b['clean'] = r.returncode
        if r.returncode:
            print(b['id'], 'DEMO FAILS ON CLEAN', r.returncode, r.stdout[-1500:])
    for b in todo:
        try:
            for f, old, new in b['edits']:
                p = R + '/knp/' + f
                t = open(p).read()
                assert t.count(old) == b.get('count', 1), (b['id'], f, t.count(old))
                open(p, 'w').write(t.replace(old, new))
            open('/verif/seeded/%s/patch.diff' % b['id'], 'w').write(sh('git -C /repo diff').stdout)
            r = sh('bash /opt/vp/test.sh /tmp/plant.json')
            res = json.load(open('/tmp/plant.json'))
            missing = stable - set(res['passed'])
            dm = sh(['bash', '/verif/seeded/%s/demo.sh' % b['id']], cwd=R)
            ck = sh(['python3-vt', '/verif/check.py', b['property']], cwd='/verif')
            vio = [l for l in ck.stdout.splitlines() if l.startswith('VIOLATION')]
            print(b['id'], 'tests-missing', sorted(missing)[:5], 'demo clean', b['clean'], 'patched', dm.returncode,
                  'check', ck.returncode, vio[:2], flush=True)
            if missing or dm.returncode in (0, 99):
                print('   NOT A VALID BUG', r.stdout[-300:] if missing else '', dm.stdout[-1500:])
            if ck.returncode != 1:
                print('   MISSED', ck.stdout[-1500:])
        finally:
            sh('git -C /repo checkout -- .')
    print('rebuild', sh('bash /opt/vp/build.sh').returncode)


main()
