#!/usr/bin/env python3
"""Writes BOUNDS.md: every run of every check with its bound."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import registry
with open(V + '/BOUNDS.md', 'w') as f:
    f.write('# Runs and their bounds (generated by tools/mkbounds.py from tools/registry.py)\n\nNothing is claimed outside the bounds. Where a thorough bound is given, the thorough check uses it instead.\n')
    for p in sorted(registry.PROPS):
        v = registry.PROPS[p]
        f.write('\n## %s\n\n' % p)
        for a in v.get('assume', []): f.write('Assumes: %s\n\n' % a)
        for r in v['runs']:
            t = r.get('thorough') or {}
            f.write('- `%s%s` (%s%s): %s%s\n' % (r['entry'], r.get('suffix') or '', r['file'], '' if r.get('tier', 'both') == 'both' else ', %s only' % r['tier'], r['bounds'],
                '; thorough: %s' % (t['bounds'] if t.get('bounds') and t['bounds'] != r['bounds'] else 'larger limits') if t else ''))
