#!/usr/bin/env python3
"""Assembles DESIGN.md (developer tool)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(H + '/tools/design_head.md').read() + open(H + '/tools/design_props.md').read()
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
out += """
## 4. Planted bugs

Each was written from a property's text and the code, builds, passes the 116 tests and has a demonstration. "Caught" is the quick check of
its own property on the patched tree, as recorded in `tools/caught.json`. Bugs planted after that record was made, and not run again
for it, are marked as not in the recorded run.

| bug | property | what it breaks | needs | caught by |
|---|---|---|---|---|
"""
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    c = caught.get(b, {})
    out += \
        '| %s | %s | %s | %s | %s |\n' % (b, m['property'], m['what_it_breaks'], m['needs'],
                                          ('%s: %s' % (m['property'], c['how'])) if c.get('rc') == 1 else 'not caught' if c else 'not in the recorded run')
out += """
## 5. Defects found and repaired

Every one was found by a monitor on the unchanged tree, confirmed against the real code and repaired by a `fix:` commit in `/repo`
(`known_findings.txt` has the same list; no unrepaired finding is left, so no check prints KNOWN-FINDING).

"""
for l in open(H + '/known_findings.txt'):
    if l.startswith('fixed:'):
        _, p, c, t = l.strip().split(' ', 3)
        out += '* %s `%s` %s\n' % (p.split('=')[1], c, t)
out += open(H + '/tools/design_tail.md').read()
open(H + '/DESIGN.md', 'w').write(out)
