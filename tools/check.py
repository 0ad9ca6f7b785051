#!/usr/bin/env python3
"""Decides one property on /repo's current working tree: builds the simulator from it and searches seeded schedules and faults.

usage: check.py ID   (environment: VERIF_SEED, VERIF_TIER)
exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed
"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build

# seconds of search: quick, thorough
BUDGET = (240, 3000)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    thorough = tier == 'thorough'
    exe = build.build(parse_only=pid.startswith('A'))
    if exe is None:
        print('error: the simulator could not be built from ' + build.REPO)
        return 2
    out = os.path.join(build.BUILD, 'runs', pid)
    os.makedirs(out, exist_ok=True)
    ev = os.path.join(build.VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cmd = [exe, 'check', pid, '--dir', out, '--tier', 'thorough' if thorough else 'quick', '--seed', str(seed),
           '--seconds', str(BUDGET[1 if thorough else 0]), '--workers', str(max(2, min(8, os.cpu_count() or 8))),
           '--evidence', os.path.join(ev, pid + '.json'), '--known', os.path.join(build.VERIF, 'known_findings.txt')]
    with open(os.path.join(out, 'stderr'), 'w') as err:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, text=True, errors='replace')
    sys.stdout.write(r.stdout)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == '__main__':
    sys.exit(main())
