#!/usr/bin/env python3
"""Builds harness binaries from /repo's working tree (nothing is taken from /repo/_build).

  build.py NAME...   build the harness(es) harness/NAME.cpp into build/bin/NAME
  build.py --all     build every harness

pion's own sources are compiled unmodified; the only additions are harness/mkshim.sh's copies of
two Boost headers, with the two members that pion's connection.hpp needs and newer Asio dropped,
and include/pion/config.hpp, the config header CMake generates for this platform."""
import os, sys, subprocess, glob
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
HOT = {'algorithm', 'http_parser', 'http_types', 'spdy_parser', 'spdy_decompressor'}
BASE = ('-std=c++11 -w -g1 -fno-omit-frame-pointer -DNDEBUG -D_GLIBCXX_ASSERTIONS -DBOOST_DISABLE_PRAGMA_MESSAGE '
        '-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -I$shim -I%s/include -I%s/include -I%s/services -I%s/harness' % (V, R, R, V))
VARIANTS = {
    'asan': '-fsanitize=address,bounds,null,return,unreachable,integer-divide-by-zero,bool -fno-sanitize-recover=all',
    'tsan': '-fsanitize=thread',
}
LIBS = '-lboost_thread -lboost_system -lboost_filesystem -lboost_regex -lboost_date_time -lz -lbz2 -lssl -lcrypto -ldl -lpthread'
# harnesses whose binary is built with another sanitizer, and harnesses that link service sources
TSAN = {n for n in (os.path.basename(p)[:-4] for p in glob.glob(V + '/harness/*_tsan.cpp'))}

def harnesses():
    return sorted(os.path.basename(p)[:-4] for p in glob.glob(V + '/harness/*.cpp') if os.path.basename(p) != 'pbt.cpp')

def main():
    names = sys.argv[1:]
    if names == ['--all']: names = harnesses()
    os.makedirs(B, exist_ok=True)
    shim = os.path.join(B, 'shim')
    subprocess.check_call(['bash', V + '/harness/mkshim.sh', shim])
    out = ['shim = ' + shim, 'base = ' + BASE, 'ninja_required_version = 1.5']
    for v, flags in VARIANTS.items():
        out += [
            'rule pch_%s\n command = clang++ $base %s -O0 -fpch-instantiate-templates -x c++-header $in -MD -MF $out.d -o $out\n depfile = $out.d\n deps = gcc' % (v, flags),
            'rule cxxp_%s\n command = clang++ $base %s -O0 -include-pch $pch -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc' % (v, flags),
            'rule cxx_%s\n command = clang++ $base %s -O1 -include boost/logic/tribool_io.hpp -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc' % (v, flags),
            'rule cxxm_%s\n command = clang++ $base %s -O0 -Dmain=$main -include boost/logic/tribool_io.hpp -MD -MF $out.d -c $in -o $out\n depfile = $out.d\n deps = gcc' % (v, flags),
            'rule ar_%s\n command = rm -f $out && ar crs $out $in' % v,
            'rule link_%s\n command = clang++ %s -rdynamic -o $out $in $libs %s' % (v, flags, LIBS),
        ]
    srcs = sorted(glob.glob(R + '/src/*.cpp'))
    svcs = sorted(glob.glob(R + '/services/*.cpp'))
    for v in VARIANTS:
        d = '%s/%s' % (B, v)
        pch = d + '/pch.pch'
        out.append('build %s: pch_%s %s/harness/pch.hpp' % (pch, v, V))
        def obj(src, o, hot):
            if hot: out.append('build %s: cxx_%s %s' % (o, v, src))
            else: out.append('build %s: cxxp_%s %s | %s\n pch = %s' % (o, v, src, pch, pch))
            return o
        o1 = [obj(s, d + '/src/' + os.path.basename(s) + '.o', os.path.basename(s)[:-4] in HOT) for s in srcs]
        o2 = [obj(s, d + '/svc/' + os.path.basename(s) + '.o', False) for s in svcs]
        out.append('build %s/libpion.a: ar_%s %s' % (d, v, ' '.join(o1)))
        out.append('build %s/libsvc.a: ar_%s %s' % (d, v, ' '.join(o2)))
        obj(V + '/harness/pbt.cpp', d + '/pbt.o', True)
    for h in harnesses():
        v = 'tsan' if h in TSAN else 'asan'
        d = '%s/%s' % (B, v)
        text = open('%s/harness/%s.cpp' % (V, h)).read()
        hot = '// BUILD: hot' in text
        o = '%s/h/%s.o' % (d, h)
        if hot: out.append('build %s: cxx_%s %s/harness/%s.cpp' % (o, v, V, h))
        else: out.append('build %s: cxxp_%s %s/harness/%s.cpp | %s/pch.pch\n pch = %s/pch.pch' % (o, v, V, h, d, d))
        if '// BUILD: programs' in text:      # the bundled programs, with main() renamed
            for u in ('piond', 'helloserver'):
                out.append('build %s/prog/%s.o: cxxm_%s %s/utils/%s.cpp\n main = %s_main' % (d, u, v, R, u, u))
                o += ' %s/prog/%s.o' % (d, u)
        libs = ' '.join(([d + '/libsvc.a'] if '// BUILD: services' in text else []) + [d + '/libpion.a'])
        out.append('build %s/bin/%s: link_%s %s %s/pbt.o | %s\n libs = %s' % (B, h, v, o, d, libs, libs))
    out.append('rule plug\n command = clang++ -std=c++11 -O1 -fPIC -fvisibility=hidden -shared -Wl,-Bsymbolic $defs -o $out $in')
    plugs = []
    for t in range(5):
        for n in ('alpha', 'beta', 'a.b', 'nocreate', 'nodestroy'):
            o = '%s/plugins/%s_%d' % (B, n, t); plugs.append(o)
            d = {'nocreate': '-DNO_CREATE', 'nodestroy': '-DNO_DESTROY'}.get(n, '')
            out.append('build %s: plug %s/harness/plugins/plug.cpp | %s/harness/plugins/iface.hpp\n defs = -DTAG=%d -DNAME=\'"%s"\' %s' % (o, V, V, t, n, d))
    out.append('build plugins: phony ' + ' '.join(plugs))
    nf = B + '/build.ninja'
    new = '\n'.join(out) + '\n'
    if not os.path.exists(nf) or open(nf).read() != new: open(nf, 'w').write(new)
    extra = ['plugins'] if any('// BUILD: plugins' in open('%s/harness/%s.cpp' % (V, n)).read() for n in names) else []
    return subprocess.call(['ninja', '-C', B, '--quiet', '-k', '0'] + ['%s/bin/%s' % (B, n) for n in names] + extra, stdout=sys.stderr)

sys.exit(main())
