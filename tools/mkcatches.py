#!/usr/bin/env python3
"""Writes tools/catches.md from seeded/*/meta.json and the table below."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what the check could not do when the bug was written, and what was added to it
MISSED = json.load(open(os.path.join(here, 'tools', 'missed.json')))
out = ['\n## Planted bugs\n',
       'Each is in `seeded/<id>/`: a change written from the text of a property and the code, which builds and passes the stable tests; its demonstration fails with it.  '
       'All are caught by the quick check of their property.  The last column says what the check could not see when the change was written, and what was added.\n',
       '| change | property | needs | first run of the check |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    out.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), 'missed; ' + MISSED[i] if i in MISSED else 'caught'))
out.append('')
open(os.path.join(here, 'tools', 'catches.md'), 'w').write('\n'.join(out))
