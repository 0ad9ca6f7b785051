#!/usr/bin/env python3
"""bison grammar.xml -> sim/grammar.inc (run by hand; the tables are frozen so that seeds keep their meaning)."""
import sys, xml.etree.ElementTree as ET
g = ET.parse(sys.argv[1]).getroot().find('grammar')
nts = {n.get('name') for n in g.iter('nonterminal')}
out = []
for r in g.iter('rule'):
    lhs = r.find('lhs').text
    if lhs == '$accept':
        continue
    syms = [s.text for s in r.find('rhs').findall('symbol')]
    out.append('R("%s"%s)' % (lhs, ''.join(', "%s"' % (('@' + s) if s in nts else s.strip('"').replace('\\"', '"').replace('\\', '\\\\').replace('"', '\\"')) for s in syms)))
open(sys.argv[2], 'w').write('\n'.join(out) + '\n')
