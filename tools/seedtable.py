#!/usr/bin/env python3
# Prints the table of planted bugs for DESIGN.md.
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
first = dict(l.rstrip('\n').split(': ', 1) for l in open(os.path.join(root, 'tools/missed-at-first.txt')) if ': ' in l)
print('| planted bug | needs | caught by |\n|---|---|---|')
for i in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', i, 'meta.json')))
    note = first.get(i)
    c = m['property'] + (' (missed at first; ' + note + ')' if note else '')
    if note and note.startswith('NOT'):
        c = note
    print(f"| {i} | {m['needs']} | {c} |")
