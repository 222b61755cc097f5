""" Rewrites the table of planted bugs at the end of DESIGN.md.

Seeds named in MISSED_FIRST weren't caught by the check of their property
as it was when they were planted; all those listed are caught now, unless
they are named in MISSED.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs"
STATUS = os.path.join(ROOT, 'tools', 'seed_status.json')


def main():
    status = json.load(open(STATUS))
    rows = [
        MARK, "",
        "Each is in `seeded/<id>/`, and is run against the quick check of its",
        "property by `tools/plant.py --recheck`. *at first* marks those which",
        "the check missed when they were planted, and was strengthened for.",
        "", "| planted bug | needs | caught by |", "|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.load(open(os.path.join(
            ROOT, 'seeded', name, 'meta.json')))
        caught = 'not caught' if name in status['missed'] \
            else meta['property']
        if name in status['missed_first']:
            caught += ' (missed at first)'
        rows.append('| %s: %s | %s | %s |' % (
            name, meta['what_it_breaks'].replace('|', '/'),
            meta['needs'].replace('|', '/'), caught))
    path = os.path.join(ROOT, 'DESIGN.md')
    text = open(path).read()
    if MARK in text:
        text = text[:text.index(MARK)]
    open(path, 'w').write(text.rstrip() + '\n\n' + '\n'.join(rows) + '\n')


main()
