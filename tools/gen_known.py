#!/usr/bin/env python3
"""Writes known_findings.txt: one line per repair, from the commits in /repo and the property each one belongs to."""
import os
import subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    ('lever arm of the second agent', 'C03'), ('euler integrator rotates', 'C08'), ('three-circle social force', 'C12'),
    ('agents heading straight', 'C18'), ('zero nearest neighbours', 'C19'), ('continuous obstacle handling', 'C21'),
    ('positions left of or below', 'C20'), ('linestring lengths', 'C22'), ('an absolute scale', 'C24'),
    ('members of an agent group', 'C27'), ('size of an agent group', 'C27'), ('an agent group without', 'C27'),
    ('data files are found', 'C30'), ('buffered simulation data', 'C30'), ('single geometries', 'C32'),
    ('saving geometries again', 'C32'), ('parts of geometry collections', 'C33'), ('holes of polygons', 'C33'),
    ('agents that enter the domain', 'C34'), ('targets are reached', 'C34'), ('classical density', 'C37'),
    ('voronoi density uses', 'C37'), ('voronoi densities cover', 'C37'), ('bounding box has', 'C37'),
    ('navigation maps of a field', 'C42'), ('domain and obstacles of a field', 'C42'), ('tuples of strings', 'C38'),
    ('options of tuples', 'C38'), ('options of enums', 'C38'), ('simulations are imported', 'C41'),
    ('each command runs', 'C41'), ('deprecated functions', 'C40'), ('configurations with some', 'C39'),
    ('parameters without default', 'C40'),
] + [tuple(l.rstrip('\n').split('\t')) for l in open(os.path.join(HERE, 'tools', 'known_more.tsv'))]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, universal_newlines=True).stdout
lines = []
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        s = s[5:]
        p = [b for a, b in MAP if s.startswith(a)]
        if not p:
            raise SystemExit('no property for: ' + s)
        lines.append('fixed: property=%s %s %s' % (p[0], h, s))
lines += [l.rstrip('\n') for l in open(os.path.join(HERE, 'tools', 'findings.txt'))]
with open(os.path.join(HERE, 'known_findings.txt'), 'w') as f:
    f.write(''.join(x + '\n' for x in lines))
print(len(lines))
