#!/usr/bin/env python3-vt
"""fixed.py PID HASH TEXT: record a repaired defect"""
import json, sys, os
f = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.json'; k = json.load(open(f)); p, h, t = sys.argv[1:]
k.append({"status": "fixed", "property": p, "entry": f"fixed: property={p} {h} {t}"}); json.dump(k, open(f, 'w'), indent=1)
