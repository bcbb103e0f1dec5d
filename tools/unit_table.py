"""prints the table of units for DESIGN.md (section 5)"""
import glob, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import vp
print('| unit | properties | functions under contract | how |\n|---|---|---|---|')
for p in sorted(glob.glob(vp.VERIF + '/contracts/*.c')):
    u = vp.Unit(p)
    for x in ([vp.Unit(p, v) for v in u.variants] if u.variants else [u]):
        print('| %s | %s | %s | %s |' % (x.name, ' '.join(x.props), ' '.join(x.funcs) if x.src != '-' else 'whole program', 'proof' if x.mode == 'proof' else 'bounded: ' + x.bound_note))
