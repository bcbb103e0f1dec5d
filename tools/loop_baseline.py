#!/usr/bin/env python3
"""writes contracts/loops.json: the loop headers of every function that has a loop invariant (run after changing invariants)"""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
out = {}
w = vp.Work()
for p in sorted(glob.glob(vp.VERIF + '/contracts/*.c')):
    t = open(p).read()
    import re
    m = re.search(r'^//@variants (.*)$', t, re.M)
    for v in (m.group(1).split() if m else [None]):
        u = vp.Unit(p, v)
        if u.src == '-':
            continue
        b = vp.blank(open(w.path_of(u.src)).read())
        for l in u.loops:
            fn = l.rsplit(':', 1)[0]
            loc = vp.find_function(b, fn)
            out[fn] = vp.loop_headers(b, loc)
w.close()
json.dump(out, open(vp.LOOPS, 'w'), indent=1, sort_keys=True)
open(vp.LOOPS, 'a').write('\n')
