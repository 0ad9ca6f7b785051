#!/usr/bin/env python3
"""Builds all of the repository's own unit tests (not only the three which the sandbox can build) against deps/include and runs them.

Not a check: used to validate the stand-in headers, and that a repair or a planted bug keeps the tests passing.
usage: repo_tests.py [REPO] [OUTDIR]
"""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = sys.argv[1] if len(sys.argv) > 1 else '/repo'
O = sys.argv[2] if len(sys.argv) > 2 else '/tmp/repo_tests'
os.makedirs(O + '/gen/mizugaki/parser', exist_ok=True)
os.makedirs(O + '/o', exist_ok=True)
g, p = O + '/gen/mizugaki/parser', R + '/src/mizugaki/parser'
inc = '-I%s/deps/include -I%s/include -I%s/src -I%s/test -I%s/gen' % (V, R, R, R, O)
n = ['builddir = ' + O, 'rule cxx\n  command = g++ -std=c++17 -O0 -w -pipe %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc' % inc,
     'rule link\n  command = g++ -o $out @$out.rsp -lgtest -lgtest_main -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in',
     'rule flex\n  command = cd %s/gen && flex -Cfe -o $out $in' % O,
     'rule bison\n  command = cd %s/gen && bison -Wno-conflicts-sr --header=%s/sql_parser_generated.hpp -o %s/sql_parser_generated.cpp $in' % (O, g, g),
     'build %s/sql_scanner_generated.cpp: flex %s/sql_scanner.ll' % (g, p),
     'build %s/sql_parser_generated.cpp %s/sql_parser_generated.hpp: bison %s/sql_parser.yy' % (g, g, p)]
S = [g + '/sql_scanner_generated.cpp', g + '/sql_parser_generated.cpp']
for d in ('src/mizugaki', 'test/mizugaki'):
    S += sorted(glob.glob('%s/%s/**/*.cpp' % (R, d), recursive=True))
objs = []
for s in S:
    o = '%s/o/%s.o' % (O, s.strip('/').replace('/', '_'))
    objs.append(o)
    n.append('build %s: cxx %s || %s/sql_parser_generated.hpp' % (o, s, g))
n.append('build %s/t: link %s' % (O, ' '.join(objs)))
open(O + '/build.ninja', 'w').write('\n'.join(n) + '\n')
r = subprocess.run(['ninja', '-f', O + '/build.ninja', O + '/t'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if r.returncode:
    print(r.stdout[-4000:])
    sys.exit(2)
r = subprocess.run([O + '/t'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
for l in r.stdout.decode('utf-8', 'replace').split('\n'):
    if l.startswith(('[  PASSED', '[  FAILED')) or 'tests ran' in l: print(l)
sys.exit(1 if r.returncode else 0)
