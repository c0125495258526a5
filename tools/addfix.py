#!/usr/bin/env python3
# addfix.py PROP COMMIT "what failed" : record a repaired defect in known_findings.json and DESIGN's table
import json, sys
p, c, w = sys.argv[1:4]; H = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
d = json.load(open(H + '/known_findings.json')); d['fixed'].append('fixed: property=%s %s %s' % (p, c, w)); open(H + '/known_findings.json', 'w').write(json.dumps(d, indent=1) + '\n')
t = open(H + '/tools/design_tail.md').read().replace('@FIXES@', '| %s | %s | %s |\n@FIXES@' % (p, c, w)); open(H + '/tools/design_tail.md', 'w').write(t)
