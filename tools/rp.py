#!/usr/bin/env python3
"""Print the shrunk case of the newest replay of a property: tools/rp.py P19"""
import glob, json, os, sys
for f in sorted(glob.glob('/verif/replays/%s-*.json' % sys.argv[1]), key=os.path.getmtime)[-int(sys.argv[2]) if len(sys.argv) > 2 else -1:]:
    r = json.load(open(f))
    print(f, r['message'][:800]); print(r.get('code', r['program'])[-1500:]); print('EXPECT', r.get('expect'))
