#!/usr/bin/env python3
"""writes DESIGN.md: design.tmpl.md with the tables of defects, planted bugs and not-applicable properties filled in"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(H + '/tools/design.tmpl.md').read(); k = json.load(open(H + '/known_findings.json')); m = json.load(open(H + '/MANIFEST.json'))
fixed = '\n'.join('* ' + e['entry'].replace('fixed: property=', '**', 1).replace(' ', '** (', 1).replace(' ', ') ', 2).replace(') (', ' (', 1) if False else '* **%s** %s: %s' % tuple(e['entry'][len('fixed: property='):].split(' ', 2)) for e in k if e['status'] == 'fixed')
rows = ['| id | needs | breaks |', '|---|---|---|']
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    s = json.load(open(d)); rows.append(f'| {os.path.basename(os.path.dirname(d))} | {s["needs"]} | {s["what_it_breaks"]} |')
na = '\n'.join(f'* **{e["property"]}**: {e["reason"]}' for e in m['not_applicable']) or '\n(none)'
open(H + '/DESIGN.md', 'w').write(t.replace('@@FIXED@@', '\n' + fixed).replace('@@SEEDS@@', '\n'.join(rows)).replace('@@NA@@', '\n' + na).replace('@@C15ROW@@\n', ''))
