#!/usr/bin/env python3
"""replay.py REPLAY.json: run one recorded execution again on /repo's current tree."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import build
v = json.load(open(sys.argv[1]))
path, err = build.build(v['binary'], race=v['race'], log=print)
if path is None:
    sys.exit(err)
sys.exit(subprocess.run([path, 'replay', v['scenario'], json.dumps(v['item'])]).returncode)
