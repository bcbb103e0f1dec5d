import json, sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gvc
a = json.loads(sys.argv[1])
r = gvc.verify(a['gb'], replace=a['replace'], noeffect=a['noeffect'], memsafe=a['memsafe'], overflow=a['overflow'],
               max_unwind=a['max_unwind'], deadline=time.time() + a['budget'], bounded=a.get('bounded', False))
for o in r['obligations'].values():
    o['backend'] = sorted(o['backend'])
json.dump(r, sys.stdout)
