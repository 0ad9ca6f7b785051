#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. usage: properties.py"""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'src/mizugaki/parser/'
AST = 'src/mizugaki/ast/'
AN = 'src/mizugaki/analyzer/'
PI = 'include/mizugaki/parser/'
AI = 'include/mizugaki/analyzer/'

ALL = []
NA = []


def prop(pid, title, statement, over, text, why, files, mechanism, note=None, technique=None, na=None, state=None, observe=None):
    d = {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism], 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    ALL.append((d, note, technique))
    if na:
        NA.append({'property': pid, 'reason': na})


exec(open(os.path.join(VERIF, 'tools', 'properties_list.py')).read())


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for d, _, _ in ALL:
            f.write(json.dumps(d) + '\n')
    skip = {x['property'] for x in NA}
    checks = []
    for d, note, technique in ALL:
        if d['id'] in skip:
            continue
        checks.append({'property': d['id'], 'quick_cmd': 'python3 tools/check.py ' + d['id'],
                       'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + d['id'],
                       'evidence_file': 'evidence/%s.json' % d['id'], 'technique': technique, 'level': 'exploration', 'level_note': note})
    m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks, 'not_applicable': NA,
         'notes': 'One simulator (sim/), built from the working tree of /repo by tools/build.py, decides every property; no change of /repo is needed to observe it. '
                  'Every violation is written with its seed and minimised scenario, and build/dsim replay FILE (build/dsim-parse for A*) repeats it.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
