#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (properties, seeds, findings) from props.py, seeded/ and known_findings.txt."""
import sys, os, json, re, collections
sys.path.insert(0, os.path.dirname(__file__))
from props import P, N
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def table():
    o = []
    o.append("| id | property | rule | deciding analysis |\n|---|---|---|---|")
    for p in P:
        o.append("| %s | %s | `engine/r_%s.cpp` | %s |" % (p['id'], p['title'], {'mtable': 'parse'}.get(p['rules'][0], p['rules'][0]), p['technique']))
    return '\n'.join(o)


def seeds():
    o = ["| planted change | property | what it breaks | caught by |\n|---|---|---|---|"]
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/' + d + '/meta.json'))
        o.append("| %s | %s | %s | %s |" % (d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m.get('caught_by', m['property'])))
    return '\n'.join(o)


def nas():
    return '\n'.join("* **%s %s** - %s" % (n['id'], n['title'], n['reason']) for n in N)


def fixed():
    return '\n'.join("* %s" % l.strip()[7:] for l in open(V + '/known_findings.txt') if l.startswith('fixed:'))


def findings():
    c = collections.OrderedDict()
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'finding: property=(\w+) key=(\S+) what=(.*)', l)
        if m:
            c.setdefault(m[1], []).append((m[2], m[3]))
    o = []
    for p, fs in c.items():
        o.append("* %s: %d call sites: %s." % (p, len(fs), '; '.join(sorted({k.split(':')[1] for k, _ in fs}))))
    return '\n'.join(o) or '(none)'


f = V + '/DESIGN.md'
s = open(f).read()
for n, g in (('properties', table), ('seeds', seeds), ('notapplicable', nas), ('fixed', fixed), ('findings', findings)):
    s = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (n, n), lambda m: m[1] + g() + '\n' + m[2], s, flags=re.S)
open(f, 'w').write(s)
