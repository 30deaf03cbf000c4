#!/usr/bin/env python3
"""setup_cmd: build every harness once, so that later builds are incremental."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'engine'))
import build
bins = sorted({b for l in json.load(open(os.path.join(V, 'engine/bins.json'))).values() for b in l})
rc = 0
for b in bins:
    for race in (False, True):
        out, err = build.build(b, race, log=print)
        if out is None:
            print(err[-3000:])
            rc = 1
sys.exit(rc)
