#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree (ninja, output in /verif/build)."""
import os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

INSTR = ('-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fsanitize-coverage=trace-pc '
         '-fsanitize=return,bounds,unreachable,shift,signed-integer-overflow,vla-bound -fsanitize-undefined-trap-on-error')
COMMON = '-std=c++17 -O1 -g1 -w -pipe -fno-pie -D_GLIBCXX_ASSERTIONS'
WRAPS = ['pthread_once', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'sched_yield',
         'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_tryrdlock', 'pthread_rwlock_trywrlock', 'pthread_rwlock_unlock',
         'memcpy', 'memmove', 'memset', 'memcmp', '__cxa_atexit', '__cxa_thread_atexit']


def sources(base, sub):
    out = []
    for d, ds, fs in os.walk(os.path.join(base, sub)):
        ds.sort()
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.cpp')]
    return out


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, 'w') as f:
        f.write(text)


def ninja_file(parse_only=False):
    gen = os.path.join(BUILD, 'gen')
    inc = '-I%s/deps/include -I%s/include -I%s/src -I%s' % (VERIF, REPO, REPO, gen)
    p = os.path.join(REPO, 'src/mizugaki/parser')
    n = []
    n.append('builddir = %s' % BUILD)
    n.append('rule flex\n  command = cd %s && flex -Cfe -o $out $in' % gen)
    n.append('rule bison\n  command = cd %s && bison -Wno-conflicts-sr --report=none --header=$hdr -o $cpp $in && touch $hdr' % gen)
    n.append('rule py\n  command = python3 $script $args && touch $out')
    n.append('rule cxx\n  command = g++ %s $flags %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n  description = $out' % (COMMON, inc))
    n.append('rule link\n  command = g++ -static -no-pie -o $out @$out.rsp %s -lpthread\n  rspfile = $out.rsp\n  rspfile_content = $in'
             % ' '.join('-Wl,--wrap=' + w for w in WRAPS))
    g = gen + '/mizugaki/parser'
    n.append('build %s/sql_scanner_generated.cpp: flex %s/sql_scanner.ll' % (g, p))
    n.append('build %s/sql_parser_generated.cpp %s/sql_parser_generated.hpp: bison %s/sql_parser.yy\n  cpp = %s/sql_parser_generated.cpp\n  hdr = %s/sql_parser_generated.hpp'
             % (g, g, p, g, g))
    heads = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'include/mizugaki/ast')):
        heads += [os.path.join(d, f) for f in fs if f.endswith('.h')]
    n.append('build %s/reflect.inc: py | %s %s/tools/reflect_gen.py\n  script = %s/tools/reflect_gen.py\n  args = %s %s/reflect.inc' % (gen, ' '.join(sorted(heads)), VERIF, VERIF, REPO, gen))
    objs = []
    srcs = sources(REPO, 'src/mizugaki/ast') + sources(REPO, 'src/mizugaki/parser') if parse_only else sources(REPO, 'src/mizugaki')
    # the biggest translation units first
    first = ('sql_parser_generated.cpp', 'analyze_scalar_expression.cpp', 'analyze_query_expression.cpp', 'analyze_statement.cpp')
    units = [(g + '/sql_parser_generated.cpp', INSTR), (g + '/sql_scanner_generated.cpp', INSTR)] + [(s, INSTR) for s in srcs]
    units.sort(key=lambda u: 0 if os.path.basename(u[0]) in first else 1)
    harness = [(s, '') for s in sources(VERIF, 'sim') if not (parse_only and ('/sim/analyze/' in s or '/sim/sql/' in s))]
    for s, fl in units[:4] + harness + units[4:]:
        base = REPO if s.startswith(REPO + '/') else gen if s.startswith(gen) else VERIF
        o = '%s/obj/%s.o' % (BUILD, os.path.relpath(s, base).replace('/', '_'))
        order = ' || %s/sql_parser_generated.hpp %s/reflect.inc' % (g, gen)
        n.append('build %s: cxx %s%s\n  flags = %s' % (o, s, order, fl))
        objs.append((o, base == VERIF))
    objs.sort(key=lambda x: x[1])  # instrumented definitions of inline functions win
    exe = 'dsim-parse' if parse_only else 'dsim'
    n.append('build %s/%s: link %s' % (BUILD, exe, ' '.join(o for o, _ in objs)))
    n.append('default %s/%s' % (BUILD, exe))
    return '\n'.join(n) + '\n'


def build(parse_only=False):
    os.makedirs(os.path.join(BUILD, 'gen/mizugaki/parser'), exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    f = os.path.join(BUILD, 'parse.ninja' if parse_only else 'build.ninja')
    write_if_changed(f, ninja_file(parse_only))
    r = subprocess.run(['ninja', '-f', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 and 'reflect.inc' in r.stdout:
        # the description generated from the current headers does not compile with them: the one kept from the
        # tree this was written for describes the same nodes
        inc, kept = os.path.join(BUILD, 'gen/reflect.inc'), os.path.join(VERIF, 'tools/reflect_kept.inc')
        if open(inc).read() != open(kept).read():
            shutil.copyfile(kept, inc)
            r = subprocess.run(['ninja', '-f', f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-8000:])
        return None
    return os.path.join(BUILD, 'dsim-parse' if parse_only else 'dsim')


if __name__ == '__main__':
    b = build('--parse' in sys.argv)
    if b is None:
        sys.exit(2)
    print(b)
