"""Adds entries to KNOWN_FINDINGS.json (development aid): addfind.py PROP commit 'text'   or  PROP known:ID 'text'"""
import json, sys
d = json.load(open('KNOWN_FINDINGS.json'))
p, c, w = sys.argv[1:4]
if c.startswith('known:'):
    d['findings'].append({'status': 'known', 'property': p, 'id': c[6:], 'what': w})
else:
    d['findings'].append({'status': 'fixed', 'property': p, 'commit': c, 'what': 'fixed: property=%s %s %s' % (p, c, w)})
open('KNOWN_FINDINGS.json', 'w').write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(f) for f in d['findings']) + '\n]}\n')
