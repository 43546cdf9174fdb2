#!/usr/bin/env python3
"""Helpers for planted bugs.
  seed.py verify ID...   apply the patch to /repo, build, run the stable tests, demo and the property's
                         quick check, undo; also runs the demo on the unchanged tree
"""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO_SH = '''#!/bin/bash
# Builds demo.cpp against /repo's sources and runs it: exit 0 if the property holds.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
bash "$D/mkshim.sh" "$T/shim" || exit 3
CXX="g++ -std=c++11 -w -O0 %(flags)s -DBOOST_DISABLE_PRAGMA_MESSAGE -DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -include boost/logic/tribool_io.hpp -I$T/shim -I/repo/include -I/repo/_build/Bin -I/repo/services"
for s in "$D/demo.cpp" %(srcs)s; do echo "$s"; done | xargs -P 8 -I{} sh -c "$CXX -c {} -o $T/\\$(basename {}).o" || exit 3
g++ %(flags)s -rdynamic -o "$T/demo" "$T"/*.o -lboost_thread -lboost_system -lboost_filesystem -lboost_regex -lz -lbz2 -lssl -lcrypto -ldl -lpthread || exit 3
cd "$T" && timeout 120 ./demo
'''
ALL = 'algorithm http_auth http_basic_auth http_cookie_auth http_message http_parser http_plugin_server http_reader http_server http_types http_writer logger plugin process scheduler spdy_decompressor spdy_parser tcp_server tcp_timer admin_rights'.split()

def seed(id, prop, needs, breaks, edits, demo, srcs, flags=''):
    d = '%s/seeded/%s' % (V, id); os.makedirs(d, exist_ok=True)
    if srcs == 'all': srcs = [s for s in ALL if os.path.exists('%s/src/%s.cpp' % (R, s))]
    assert subprocess.check_output(['git', '-C', R, 'status', '--porcelain']) == b''
    try:
        for f, a, b in edits:
            s = open(R + '/' + f).read(); assert s.count(a) == 1, (f, s.count(a), a); open(R + '/' + f, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', R, 'diff']))
    finally: subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/demo.cpp', 'w').write(demo.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH % dict(flags=flags, srcs=' '.join(s if s.startswith('/') else '/repo/src/%s.cpp' % s for s in srcs))); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(V + '/harness/mkshim.sh', d + '/mkshim.sh')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)

def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def verify(id, check=True):
    d = '%s/seeded/%s' % (V, id); m = json.load(open(d + '/meta.json')); r = {}
    base = run(['bash', d + '/demo.sh'], cwd=R); r['demo_clean'] = base.returncode
    if base.returncode: print(base.stdout.decode(errors='replace')[-2000:])
    try:
        a = run(['git', '-C', R, 'apply', d + '/patch.diff']); r['apply'] = a.returncode
        if a.returncode: print(a.stdout.decode()); return r
        b = run(['bash', '/opt/vp/build.sh']); r['build'] = b.returncode
        if b.returncode: print(b.stdout.decode()[-2000:])
        o = '/tmp/seed_o.json'; run(['bash', '/opt/vp/test.sh', o]); j = json.load(open(o)); st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        p = j['passed']; r['tests'] = 'ok' if set(x if isinstance(x, str) else x['name'] for x in st) <= set(x if isinstance(x, str) else x['name'] for x in p) else 'FAIL %d' % len(p)
        b = run(['bash', d + '/demo.sh'], cwd=R); r['demo_bug'] = b.returncode; r['demo_out'] = b.stdout.decode(errors='replace')[-200:]
        if check:
            import time; t = time.time(); c = run(['./check.sh', m['property'], 'quick'], cwd=V); r['check'] = c.returncode; r['secs'] = round(time.time() - t)
            r['out'] = [l[:300] for l in c.stdout.decode(errors='replace').splitlines() if 'VIOLATION' in l or 'BUILD' in l or 'held' in l or 'failed' in l][:3]
    finally: subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
    return r
if __name__ == '__main__' and len(sys.argv) > 2 and sys.argv[1] == 'verify':
    ids = sys.argv[2:] if sys.argv[2] != 'all' else sorted(os.listdir(V + '/seeded'))
    for i in ids: print(i, json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property'], json.dumps(verify(i)), flush=True)
    run(['bash', '/opt/vp/build.sh'])
